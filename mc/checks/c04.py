"""C04: placement of output sections.  Model = where the linker puts sections relative to region and type boundaries."""
import os
import re

from .. import chips, model, proj, sut
from ..core import Prune, Space, Violation

ASSUMPTIONS = ['two regions covering one address belong to the same memory type there (the type follows from the address)',
               'a part starting outside all regions is not divided further']

A1, A2, B = 'esp-idf/a/liba.a', '/opt/other/liba.a', 'esp-idf/b/libb.a'


def check_warnings(err, warns):
    """Overflow and not-accounted warnings: exactly the expected ones, each naming what it is about."""
    errs = []
    lines = [ln for ln in err.split('\n') if 'WARN' in ln.upper()]
    got_over, got_lost = [], []
    for ln in lines:
        m = re.search(r'output section(?: or its part)? (\S+?)\s*\(', ln)
        if not m:
            continue
        if 'overflow' in ln:
            got_over.append((m.group(1), ln))
        elif 'exceeds' not in ln:
            got_lost.append(m.group(1))
    over = sorted(w[2] for w in warns if w[0] == 'overflow')
    if sorted(n for n, _ in got_over) != over:
        errs.append(f'overflow warnings for {sorted(n for n, _ in got_over)}, expected {over}')
    for w in warns:
        if w[0] == 'overflow' and not any(n == w[2] and w[1] in ln for n, ln in got_over):
            errs.append(f'no overflow warning naming memory type {w[1]} and section {w[2]}')
    lost = sorted(w[1] for w in warns if w[0] == 'lost')
    if sorted(got_lost) != lost:
        errs.append(f'warnings about sections not accounted for {sorted(got_lost)}, expected {lost}')
    return errs


def check_img(img, elf=False, load=True):
    mp = proj.put(os.path.join(sut.WDIR, 'p'), img, elf=elf)
    exp, warns = model.oracle(img, load, elf)
    got, err = sut.get(mp, load)
    errs = model.compare_maps(got, exp) + check_warnings(err, warns)
    if errs:
        raise Violation('placement differs:\n  ' + '\n  '.join(errs[:12]) + f'\n--- stderr\n{err}--- symbols {img.symbols}\n'
                        f'--- elf={elf} map\n' + model.render(img))
    return [(t, i['used'], {s: v['size'] for s, v in i['sections'].items()}) for t, i in got['memory_types'].items()], err


# ---------------------------------------------------------------- (a) one section walking over boundaries

T = 0x40378000   # IRAM | DIRAM type boundary of the esp32s3
LAYOUTS = {
    'crossing+adjacent+gap': [('iram0_0_seg', T - 0x40, 0x80, 'xr'), ('seg1', T + 0x40, 0x20, 'rw'),
                              ('seg2', T + 0xA0, 0x40, 'rw'), ('rtc_slow_seg', 0x50000000, 0x1000, 'rw')],
    'gap at the type boundary': [('seg0', T - 0x40, 0x20, 'xr'), ('seg1', T + 0x20, 0x40, 'rw'),
                                 ('rtc_slow_seg', 0x50000000, 0x1000, 'rw')],
    'nothing above': [('seg1', T, 0x40, 'rw'), ('seg0', T - 0x40, 0x40, 'xr')],
    'nothing below': [('rtc_slow_seg', 0x50000000, 0x1000, 'rw'), ('seg1', T, 0x40, 'rw')],
    'empty region of another type': [('seg0', T - 0x40, 0x20, 'xr'), ('reserved', T, 0, 'rw'),
                                     ('rtc_slow_seg', 0x50000000, 0x1000, 'rw')],
    'nested and repeated': [('small', T, 0x20, 'rw'), ('seg0', T - 0x40, 0xC0, 'xr'), ('again', T - 0x40, 0xC0, 'xr'),
                            ('rtc_slow_seg', 0x50000000, 0x1000, 'rw')],
}
STARTS = (T - 0x60, T - 0x40, T - 0x30, T - 0x10, T, T + 0x30, T + 0x40, T + 0x70)
ITEMS = [('A', 0x10), ('A', 0x30), ('A', 0x90), ('B', 0x30), ('fill', 0x10), ('fill', 0x50), ('A2', 0x20), ('Ay', 0x60)]
FILES = {'A': (A1, 'x.c.obj'), 'Ay': (A1, 'y.c.obj'), 'A2': (A2, 'x.c.obj'), 'B': (B, 'x.c.obj')}


def walk_image(layout, start, items, syms):
    lay = model.Layout('.iram0.text', start)
    for i, (k, z) in enumerate(items):
        if k == 'fill':
            lay.fill(z)
        else:
            lay.ins(f'.text.f{i}', z, *FILES[k])
    img = model.Img('esp32s3', LAYOUTS[layout], [lay.out])
    if syms:
        img.symbols = []
        for it in lay.out.items:
            if not isinstance(it, model.Ins):
                continue
            n = it.name.rsplit('.', 1)[-1]
            if syms == 'one':
                img.symbols.append({'name': n, 'addr': it.addr, 'size': it.size, 'type': 'func'})
            elif syms == 'two':
                h = it.size // 2 + 4
                img.symbols.append({'name': n, 'addr': it.addr, 'size': h, 'type': 'func'})
                img.symbols.append({'name': n + '_b', 'addr': it.addr + h, 'size': it.size - h, 'type': 'object'})
            elif syms == 'alias':
                img.symbols.append({'name': n, 'addr': it.addr, 'size': it.size, 'type': 'func'})
                img.symbols.append({'name': n + '_alias', 'addr': it.addr + 4, 'size': it.size - 8, 'type': 'func'})
            elif syms == 'tiles':
                for k in range(0, it.size, 0x10):
                    img.symbols.append({'name': f'{n}_{k:x}', 'addr': it.addr + k, 'size': min(0x10, it.size - k), 'type': 'object'})
            else:
                img.symbols.append({'name': 'gap', 'addr': it.addr + 4, 'size': it.size - 8, 'type': 'object'})
    return img


def walk_space(n, items, starts, layouts, symkinds, bounds, name='walk'):
    def build(c):
        lay = c.choose('regions', layouts)
        start = c.choose('start', starts)
        seq = []
        for i in range(n):
            it = c.choose(f'item{i}', [None] + items)
            if it is None:
                break
            seq.append(it)
        if not seq:
            raise Prune()
        return (lay, start, tuple(seq), c.choose('symbols', symkinds))

    def chk(sc):
        img = walk_image(*sc)
        return check_img(img, elf=sc[3] is not None)
    return Space(name, build, chk, bounds=bounds)


def many_space():
    """Many input sections (and symbols) in one output section walking over the boundaries."""
    def build(c):
        return (c.choose('regions', list(LAYOUTS)), c.choose('start', STARTS), c.choose('count', (5, 9, 16, 17, 33)),
                c.choose('size', (8, 0xC, 0x14)), c.choose('fill every', (0, 3)), c.choose('symbols', (None, 'one', 'two')))

    def chk(sc):
        lay, start, n, size, every, syms = sc
        seq = []
        for i in range(n):
            seq.append((list(FILES)[i % 4], size))
            if every and i % every == 1:
                seq.append(('fill', 4))
        return check_img(walk_image(lay, start, seq, syms), elf=syms is not None)
    return Space('many', build, chk, bounds='6 layouts x 8 starts x 5 counts up to 33 x 3 sizes x padding x symbols')


# ---------------------------------------------------------------- (b) every chip, real regions


def points(target, regions):
    ps = set()
    for _, a, z, _ in regions:
        ps |= {a, a + z}
    for name, prim, length, sec in chips.CHIPS[target]:
        for a in {prim, sec} - {0}:
            ps |= {a, a + length}
    return sorted(p for p in ps if p > 0x1000)


def chip_space(bounds, pairs):
    deltas = (-0x18, 0, 0x8)
    sizes = (0x8, 0x10, 0x20, 0x1000000) if pairs else (0x8, 0x18, 0x40)

    def build(c):
        t = c.choose('chip', sorted(chips.CHIPS))
        regs = list(chips.REGIONS[t])
        p = c.choose('boundary', points(t, regs))
        start = p + c.choose('offset', deltas)
        size = c.choose('size', sizes)
        how = c.choose('contents', ('one', 'three', 'padded'))
        name = c.choose('name', ('.iram0.text', '.flash.rodata', '.dram0.bss'))
        order = c.choose('region order', ('as written', 'reversed'))
        return (t, start, size, how, name, order)

    def chk(sc):
        t, start, size, how, name, order = sc
        regs = list(chips.REGIONS[t])
        if order == 'reversed':
            regs.reverse()
        lay = model.Layout(name, start)
        if how == 'one':
            lay.ins('.text.f', size, A1, 'x.c.obj')
        elif how == 'three':
            lay.ins('.text.f', 4, A1, 'x.c.obj')
            lay.ins('.text.g', size - 5, B, 'x.c.obj')
            lay.ins('.text.h', 1, A1, 'x.c.obj')
        else:
            lay.ins('.text.f', 1, A1, 'x.c.obj')
            lay.fill(size - 2)
            lay.ins('.text.h', 1, A1, 'y.c.obj')
        return check_img(model.Img(t, regs, [lay.out]))
    return Space('chips', build, chk, bounds=bounds)


# ---------------------------------------------------------------- (c) external RAM

EXT_NAMES = ('.ext_ram.bss', '.ext_ram_noinit', '.ext_ram.bss.0.bss', '.ext_ram_noinit.1.noinit', '.ext_ram.data',
             '.x.ext_ram.bss', '.ext_ram_bss')


def ext_space(bounds):
    def build(c):
        t = c.choose('chip', sorted(chips.CHIPS))
        name = c.choose('section', EXT_NAMES)
        at = c.choose('place', [p for p in points(t, chips.REGIONS[t])] + [0x10000000])
        off = c.choose('offset', (0, 0x40, -0x10))
        return (t, name, at + off, c.flag('elf'), c.flag('dropped region'), c.flag('companion'))

    def chk(sc):
        t, name, addr, elf, drop, companion = sc
        lay = model.Layout(name, addr, 'nobits')
        lay.ins('.bss.big', 0x18, B, 'x.c.obj')
        lay.fill(4)
        lay.ins('.bss.b2', 0x8, A1, 'x.c.obj')
        outs = [lay.out]
        if companion:
            w = model.Layout('.flash.rodata', chips.REGIONS[t][1][1])
            w.ins('.rodata.a', 0x21, A1, 'x.c.obj')
            outs.insert(0, w.out)
        regs = [r for r in chips.REGIONS[t] if not (drop and r[0].startswith(('ext', 'extern')))]
        img = model.Img(t, regs, outs, symbols=[])
        return check_img(img, elf=elf)
    return Space('extram', build, chk, bounds=bounds)


# ---------------------------------------------------------------- (d) several sections, equal names after splitting


def multi_space(n, bounds):
    """Sections laid out one after another across boundaries; some share archives/objects with their neighbours."""
    names = ('.iram0.vectors', '.iram0.text', '.iram0.data', '.iram0.bss')

    def build(c):
        lay = c.choose('regions', list(LAYOUTS))
        start = c.choose('start', STARTS)
        sz = [(c.choose(f'gap{i}', (0, 0x10)), c.choose(f'size{i}', (0x10, 0x30, 0x70))) for i in range(n)]
        return (lay, start, tuple(sz), c.choose('order', ('up', 'down')), c.flag('symbols loaded'))

    def chk(sc):
        lay, start, sz, order, load = sc
        outs, dot = [], start
        for i, (g, z) in enumerate(sz):
            dot += g
            w = model.Layout(names[i], dot)
            w.ins('.text.f', z - 8, A1, 'x.c.obj')
            w.fill(4)
            w.ins('.text.g', 4, B if i % 2 else A1, 'x.c.obj')
            dot = w.dot
            outs.append(w.out)
        if order == 'down':
            outs.reverse()
        return check_img(model.Img('esp32s3', LAYOUTS[lay], outs), load=load)
    return Space('multi', build, chk, bounds=bounds)


# ---------------------------------------------------------------- (e) through the command line


def cli_space(bounds):
    def build(c):
        return (c.choose('regions', list(LAYOUTS)), c.choose('start', STARTS),
                (c.choose('item0', ITEMS), c.choose('item1', ITEMS)), c.choose('symbols', (None, 'two')))

    def chk(sc):
        import json
        img = walk_image(*sc)
        elf = sc[3] is not None
        mp = proj.put(os.path.join(sut.WDIR, 'p'), img, elf=elf)
        exp, warns = model.oracle(img, True, elf)
        r = sut.cli('--format', 'raw', '--show-unused', '--use-flash-size', mp)
        if r.rc or r.exc:
            raise Violation(f'{r}')
        errs = model.compare_maps(json.loads(r.out), exp) + check_warnings(r.err, warns)
        if errs:
            raise Violation('report differs:\n  ' + '\n  '.join(errs[:12]) + f'\n{r}')
        return r.out
    return Space('cli', build, chk, bounds=bounds)


def spaces(tier):
    lays = list(LAYOUTS)
    syms = (None, 'one', 'two', 'alias', 'tiles', 'part')
    if tier == 'quick':
        return [walk_space(2, ITEMS, STARTS, lays, syms, '5 region layouts x 8 starts x all sequences of <=2 items over 8 '
                                                          'x 5 symbol patterns'),
                walk_space(3, ITEMS[:6], STARTS[:4], lays[:2], (None, 'two'),
                           '2 layouts x 4 starts x all sequences of <=3 items over 6', 'walk-deep'),
                many_space(),
                chip_space('13 chips x every region/type boundary x offset x size x contents x name x region order', False),
                ext_space('13 chips x section names x boundaries x ELF x missing region'),
                multi_space(2, '5 layouts x 8 starts x two sections x gaps x sizes'),
                cli_space('5 layouts x 8 starts x two items x symbols through the command line')]
    return [walk_space(3, ITEMS, STARTS, lays, syms, '5 region layouts x 8 starts x all sequences of <=3 items over 8 x 5 '
                                                      'symbol patterns'),
            many_space(),
            chip_space('13 chips x every boundary x offset x size (also huge) x contents x name x region order', True),
            ext_space('13 chips x section names x boundaries x ELF x missing region'),
            multi_space(3, '5 layouts x 8 starts x three sections x gaps x sizes'),
            cli_space('5 layouts x 8 starts x two items x symbols through the command line')]
