"""Builder of complete firmware images from compact contents, for the report properties (C07..C14, C17, C21)."""
from . import chips, model

# section prefix -> candidate region names, in order
PLACE = [
    ('.iram', ('iram0_0_seg', 'sram_seg', 'sram_high')),
    ('.dram', ('dram0_0_seg', 'sram_seg', 'sram_low')),
    ('.noinit', ('dram0_0_seg', 'sram_seg', 'sram_low')),
    ('.flash.text', ('iram0_2_seg', 'irom_seg')),
    ('.flash', ('drom0_0_seg', 'drom_seg')),
    ('.eh_frame', ('drom0_0_seg', 'drom_seg')),
    ('.ext_ram', ('extern_ram_seg', 'ext_ram_seg')),
    ('.rtc', ('rtc_slow_seg', 'lp_ram_seg', 'rtc_iram_seg')),
    ('.rtcfast', ('rtc_iram_seg', 'lp_ram_seg')),
]


def region_of(target, section, regions):
    best = None
    for prefix, names in PLACE:
        if section.startswith(prefix) and (best is None or len(prefix) > len(best[0])):
            best = (prefix, names)
    for n in best[1]:
        for r in regions:
            if r[0] == n:
                return r
    raise KeyError((target, section))


def image(contents, target='esp32', regions=None, **kw):
    """contents: list of (section, items); an item is (archive|None, object, input section, size) or ('fill', n)."""
    regions = regions if regions is not None else chips.REGIONS[target]
    dots = {}
    outs = []
    for name, items in contents:
        r = region_of(target, name, regions)
        dot = dots.get(r[1], r[1])
        lay = model.Layout(name, dot, 'nobits' if name.endswith(('.bss', 'noinit')) else 'progbits')
        for it in items:
            if it[0] == 'fill':
                lay.fill(it[1])
            else:
                arch, obj, iname, size = it
                lay.ins(iname, size, arch, obj)
        dots[r[1]] = lay.dot
        outs.append(lay.out)
    return model.Img(target, regions, outs, **kw)


def autosyms(img, skip=()):
    """One symbol per input section called <prefix>.<symbol>: functions in code, objects in data."""
    syms = []
    for o in img.outs:
        for it in o.items:
            if isinstance(it, model.Ins) and it.size and it.name.count('.') >= 2 and it.name not in skip:
                sym = it.name.split('.', 2)[2]
                syms.append({'name': sym, 'addr': it.addr, 'size': it.size,
                             'type': 'func' if it.name.startswith('.text') else 'object'})
    img.symbols = syms
    return img
