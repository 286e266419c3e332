"""The enumerated family of projects used by the report properties.

A project is a choice of a variant for every slot (output section).  Names are chosen so that they collide in every
way that matters: equal abbreviated section names inside one memory type and across types, equal archive base names in
different directories, equal object names in different archives, equal symbols in different objects and sections.
"""
import os

from . import imgs, proj, sut

A1, A2, B, N = 'esp-idf/a/liba.a', '/opt/other/liba.a', 'esp-idf/b/libb.a', None
X, Y, EX = 'x.c.obj', 'y.c.obj', 'CMakeFiles/app.elf.dir/x.c.obj'

# slot: list of variants; the first one is the default
SLOTS = {
    '.iram0.vectors': [
        [(A1, X, '.text.vec', 0x40)],
        None,
    ],
    '.iram0.text': [
        [(A1, X, '.text.f', 0x101), (B, Y, '.text.g', 0x80), ('fill', 4)],
        [(A1, X, '.text.f', 0x140), (B, Y, '.text.g', 0x80), ('fill', 4)],
        [('fill', 0x20)],
        None,
        [(B, Y, '.text.g', 0x101), (A1, X, '.text.f', 0x80), ('fill', 4)],
        [(A2, X, '.text.f', 0x101), (B, X, '.text.g', 0x80), (N, EX, '.text.f', 0x10)],
        [(A1, Y, '.text.f', 0x101), (B, Y, '.text.h', 0x80), ('fill', 4)],
    ],
    '.iram1.text': [
        [(A1, X, '.text.f', 0x31), (A2, X, '.text.f', 0x32)],
        None,
        [(A1, X, '.text.f', 0x32), (A2, X, '.text.f', 0x31)],
        [('fill', 0x10)],
    ],
    '.dram0.data': [
        [(A1, X, '.data.d', 0x200), (B, X, '.data.d', 0x11)],
        [(A1, X, '.data.d', 0x211)],
        None,
        [(A1, X, '.data.d', 0x200), (B, X, '.data.d', 0x12)],
        [(A1, X, '.data.d', 0x200), (A1, X, '.data.d', 0x7), (B, Y, '.data.e', 0xA)],
    ],
    '.dram0.bss': [
        [(A1, Y, '.bss.z', 0x400)],
        None,
        [(A1, Y, '.bss.z', 0x410), ('fill', 2)],
        [('fill', 8)],
    ],
    '.flash.text': [
        [(A1, X, '.text.f', 0x1000), (B, Y, '.text.k', 0x333), (N, EX, '.text.app_main', 0x21)],
        [(A1, X, '.text.f', 0x1000), (B, Y, '.text.k', 0x334), (N, EX, '.text.app_main', 0x20)],
        None,
        [(B, Y, '.text.k', 0x333)],
    ],
    '.flash.rodata': [
        [(A1, X, '.rodata.r', 0x500), ('fill', 3), (B, Y, '.rodata.str1.4', 0x77)],
        [(A1, X, '.rodata.r', 0x501)],
        [('fill', 0x30)],
        None,
    ],
    '.rtc.data': [
        None,
        [(B, Y, '.rtc.data.q', 0x18)],
    ],
    '.rtc.bss': [
        None,
        [(A2, Y, '.bss.q', 0x1C)],
    ],
    '.ext_ram.bss': [
        None,
        [(B, X, '.bss.big', 0x1234)],
    ],
}


def pick(c, tag='', slots=None):
    """Choose one project -> tuple of variant numbers."""
    return tuple(c.choose(f'{tag}{s}', range(len(v))) if slots is None or s in slots else 0 for s, v in SLOTS.items())


def contents(sel):
    return [(s, v[i]) for (s, v), i in zip(SLOTS.items(), sel) if v[i] is not None]


def make(sel, target='esp32', **kw):
    return imgs.image(contents(sel), target, **kw)


def put(name, img, elf=False, **kw):
    return proj.put(os.path.join(sut.WDIR, name), img, elf=elf, **kw)


DEFAULT = (0,) * len(SLOTS)


def sel(**kw):
    """sel(iram0_text=2, ...)"""
    names = list(SLOTS)
    out = list(DEFAULT)
    for k, v in kw.items():
        out[names.index('.' + k.replace('_', '.', 1) if not k.startswith('ext') else '.ext_ram.bss')] = v
    return tuple(out)


EMPTY = tuple(next(i for i, x in enumerate(v) if x is None) for v in SLOTS.values())
ONLY_BSS = tuple(0 if s == '.dram0.bss' else i for s, i in zip(SLOTS, EMPTY))   # nothing in the image

# interesting pairs (current, reference)
PAIRS = [
    (DEFAULT, DEFAULT),
    (DEFAULT, sel(iram0_text=1)),
    (sel(iram0_text=4), DEFAULT),                  # offsetting change between archives of one section
    (sel(iram1_text=2), DEFAULT),                  # offsetting between archives of the same base name
    (sel(dram0_data=1), DEFAULT),                  # archive vanished, section unchanged
    (DEFAULT, sel(iram0_text=3, iram1_text=1)),    # sections appear
    (sel(iram0_text=3, rtc_data=1), DEFAULT),      # section vanishes, memory type appears
    (sel(iram0_text=2, flash_rodata=2), DEFAULT),  # sections loose all archives
    (DEFAULT, sel(iram0_text=2, dram0_bss=3)),
    (sel(flash_text=1), DEFAULT),
    (sel(iram0_text=6), DEFAULT),                  # object moved inside an archive
    (sel(iram0_text=5), DEFAULT),
    (DEFAULT, EMPTY),
    (EMPTY, DEFAULT),
    (sel(ext_ram=1, rtc_data=1, rtc_bss=1), sel(flash_text=2)),
    (sel(dram0_data=4, flash_rodata=1), sel(dram0_data=3)),
    (ONLY_BSS, DEFAULT),
    (DEFAULT, ONLY_BSS),
]
