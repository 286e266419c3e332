"""C02: sums.  Every memory map produced from any project by any sequence of transformations adds up at every level."""
import copy
import os

from .. import chips, dictmap, family, imgs, large, model, proj, reports, sut
from ..core import Prune, Space, Violation
from . import c04

ASSUMPTIONS = ['the total of the placed sections comes from the model image; not-accounted parts (warned) are excluded']


def sums(m, where):
    """The invariants of the property on one memory map."""
    errs = []
    for tn, t in m['memory_types'].items():
        for u, s in (('used', 'size'), ('used_diff', 'size_diff')):
            tot = sum(x[s] for x in t['sections'].values())
            if t[u] != tot:
                errs.append(f'{where}: {tn} {u}={t[u]}, sections sum up to {tot}')
        for sn, sec in t['sections'].items():
            asum = sum(a['size'] for a in sec['archives'].values())
            if asum > sec['size']:
                errs.append(f'{where}: {tn}/{sn} {sec["size"]} bytes, archives {asum}')
            for an, a in sec['archives'].items():
                for k in ('size', 'size_diff'):
                    tot = sum(o[k] for o in a['object_files'].values())
                    if a[k] != tot:
                        errs.append(f'{where}: {tn}/{sn}/{an} {k}={a[k]}, object files sum up to {tot}')
                for on, o in a['object_files'].items():
                    if o['size'] < 0:
                        errs.append(f'{where}: negative size of {an}:{on}')
    return errs


def total(m, k='used'):
    return sum(t[k] for t in m['memory_types'].values())


def placed(img, with_elf):
    """Bytes of reported sections that belong to some memory type."""
    parts, _ = model.typed_regions(img.target, img.regions)
    ext = any(t[0] in chips.EXT_RAM for t in chips.CHIPS[img.target])
    n = 0
    for o in img.outs:
        if not model.kept(o, with_elf):
            continue
        if ext and o.name.startswith(('.ext_ram.bss', '.ext_ram_noinit')):
            n += o.size
            continue
        n += sum(p[1] - p[0] for p in model.pieces(o, parts) if p[2] != 'lost')
    return n


def archives_total(img, with_elf):
    m, _ = model.oracle(img, False, with_elf)
    return sum(a['size'] for t in m['memory_types'].values() for s in t['sections'].values() for a in s['archives'].values())


def arch(m, k='size'):
    return sum(a[k] for t in m['memory_types'].values() for s in t['sections'].values() for a in s['archives'].values())


def syms(m, k='size'):
    return sum(x[k] for t in m['memory_types'].values() for s in t['sections'].values() for a in s['archives'].values()
               for o in a['object_files'].values() for x in o['symbols'].values())


def check_pair(cur, ref, e1=False, e2=False, cli=True):
    """All transformation pipelines of one pair of images."""
    mp = proj.put(os.path.join(sut.WDIR, 'cur'), cur, elf=e1)
    rp = proj.put(os.path.join(sut.WDIR, 'ref'), ref, elf=e2)
    pc, pr = placed(cur, e1), placed(ref, e2)
    ac, ar = archives_total(cur, e1), archives_total(ref, e2)
    sc, sr = syms(model.oracle(cur, True, e1)[0]), syms(model.oracle(ref, True, e2)[0])
    errs = []

    def same(what, a, b):
        if a != b:
            errs.append(f'{what}: {a}, expected {b}')

    for load in (False, True):
        a = sut.get(mp, load)[0]
        b = sut.get(rp, load)[0]
        for m, p, q, w in ((a, pc, ac, 'current'), (b, pr, ar, 'reference')):
            errs += sums(m, f'{w} load_symbols={load}')
            same(f'{w} load_symbols={load}: bytes of all memory types', total(m), p)
            same(f'{w} load_symbols={load}: bytes of all archives', arch(m), q)
            same(f'{w} load_symbols={load}: bytes of all symbols', syms(m), (sc if m is a else sr) if load else 0)
        d = sut.quietly(sut.memorymap.diff, a, b)
        ua, ub = copy.deepcopy(a), copy.deepcopy(b)
        sut.quietly(sut.memorymap.unify, ua)
        sut.quietly(sut.memorymap.unify, ub)
        du = sut.quietly(sut.memorymap.diff, ua, ub)
        ud = copy.deepcopy(d)
        sut.quietly(sut.memorymap.unify, ud)
        udu = copy.deepcopy(du)
        sut.quietly(sut.memorymap.unify, udu)
        for m, w in ((d, 'diff'), (ua, 'unified'), (ub, 'unified reference'), (du, 'diff of unified'), (ud, 'unified diff'),
                     (udu, 'unified diff of unified')):
            errs += sums(m, f'{w} load_symbols={load}')
            if w != 'unified reference':
                same(f'{w} load_symbols={load}: bytes of all memory types', total(m), pc)
                same(f'{w} load_symbols={load}: bytes of all archives', arch(m), ac)
                same(f'{w} load_symbols={load}: bytes of all symbols', syms(m), sc if load else 0)
            if 'diff' in w:
                same(f'{w} load_symbols={load}: difference of all symbols', syms(m, 'size_diff'), sc - sr if load else 0)
                same(f'{w} load_symbols={load}: difference of all memory types', total(m, 'used_diff'), pc - pr)
                same(f'{w} load_symbols={load}: difference of all archives', arch(m, 'size_diff'), ac - ar)
    if cli and not errs:
        for unused in (False, True):
            for diff in (False, True):
                for unify in (False, True):
                    args = ['--format', 'raw'] + ['--show-unused'] * unused + ['--unify'] * unify + ['--diff', rp] * diff
                    r = sut.cli(*args, mp)
                    if r.rc or r.exc:
                        raise Violation(f'{args}: {r}')
                    m = reports.jsonv(r.out)
                    errs += sums(m, ' '.join(args))
                    same(f'{args} bytes of all archives', arch(m), ac)
                    same(f'{args} bytes of all symbols', syms(m), sc)
                    if diff:
                        same(f'{args} difference of all symbols', syms(m, 'size_diff'), sc - sr)
                        same(f'{args} difference of all archives', arch(m, 'size_diff'), ac - ar)
                    if unused:
                        same(f'{args} bytes of all memory types', total(m), pc)
                        if diff:
                            same(f'{args} difference of all memory types', total(m, 'used_diff'), pc - pr)
        for rep in ('--archives', '--files'):
            r = sut.cli('--format', 'json2', rep, mp)
            j = reports.jsonv(r.out)
            same(f'{rep} total', sum(x['size'] for x in j.values()), ac)
    if errs:
        raise Violation('\n  '.join(errs[:12]) + f'\n--- current\n{model.render(cur)}\n--- reference\n{model.render(ref)}')
    return (pc, pr, ac, ar, repr(errs))


def walk_space(name, n, items, starts, budget, cli, bounds):
    """Sections divided, overflowing and lost in five region layouts, against a fixed reference."""
    ref = c04.walk_image('crossing+adjacent+gap', c04.T - 0x30, (('A', 0x90), ('fill', 0x10), ('B', 0x30)), None)

    def build(c):
        lay = c.choose('regions', list(c04.LAYOUTS))
        start = c.choose('start', starts)
        seq = []
        for i in range(n):
            it = c.choose(f'item{i}', [None] + items)
            if it is None:
                break
            seq.append(it)
        if not seq:
            raise Prune()
        return (lay, start, tuple(seq), c.choose('symbols', (None, 'one', 'two')))

    def chk(sc):
        return check_pair(c04.walk_image(*sc), ref, e1=sc[3] is not None, cli=cli)
    return Space(name, build, chk, bounds=bounds, budget=budget)


def family_space(budget, bounds, slots=None):
    def build(c):
        return (family.pick(c), family.pick(c, 'ref', slots), c.choose('chip', ('esp32', 'esp32s3', 'esp32p4')), c.flag('elf'),
                c.flag('ref elf'))

    def chk(sc):
        cur, ref, chip, e1, e2 = sc
        a, b = family.make(cur, chip), family.make(ref, chip)
        for i, e in ((a, e1), (b, e2)):
            if e:
                imgs.autosyms(i)
        return check_pair(a, b, e1, e2)
    return Space('family', build, chk, budget=budget, bounds=bounds)


def ext_space(bounds):
    """External RAM sections, overflows and equal names in one memory type."""
    def build(c):
        return (c.choose('chip', ('esp32', 'esp32s3', 'esp32p4', 'esp32c5')), c.choose('ext name', ('.ext_ram.bss', '.ext_ram_noinit')),
                c.choose('overflow', (0, 0x20, 0x2000)), c.choose('crossing', (0, 0x10)), c.flag('reversed'))

    def one(t, name, over, cross, rev):
        regs = chips.REGIONS[t]
        outs = []
        ext = next(r for r in regs if r[0].startswith('ext'))
        e = model.Layout(name, ext[1], 'nobits')
        e.ins('.bss.big', 0x30, c04.A1, 'x.c.obj')
        outs.append(e.out)
        for i, r in enumerate(regs[:4]):
            if r[0] == ext[0] or not r[2]:
                continue
            w = model.Layout(('.iram0.text', '.flash.text', '.dram0.data', '.flash.rodata')[i], r[1] + r[2] - 0x20)
            w.ins('.text.f', 0x10 + cross, c04.A1, 'x.c.obj')
            w.fill(0x10)
            if over:
                w.ins('.text.g', over, c04.B, 'y.c.obj')
            outs.append(w.out)
        if rev:
            outs.reverse()
        return model.Img(t, regs, outs)

    def chk(sc):
        return check_pair(one(*sc), one(sc[0], sc[1], 0x40, 0, False))
    return Space('extram-overflow', build, chk, bounds=bounds)


def dict_space(n, bounds):
    """diff and unify of arbitrary consistent maps."""
    vals = ((5, None), (None, 5), (8, 5), (5, 8))

    def build(c):
        pick, lo = [], 0
        for i in range(n):
            if lo >= len(dictmap.LEAVES):
                raise Prune()
            k = c.choose(f'leaf{i}', range(lo, len(dictmap.LEAVES)))
            lo = k + 1
            pick.append((k, c.choose(f'value{i}', vals)))
        return tuple(pick)

    def chk(pick):
        cur, ref = {}, {}
        for k, (x, y) in pick:
            if x is not None:
                cur[dictmap.LEAVES[k]] = x
            if y is not None:
                ref[dictmap.LEAVES[k]] = y
        a, b = dictmap.build(cur, {('IRAM', '.iram0.text'): 3}), dictmap.build(ref, {('DRAM', '.iram1.text'): 2})
        errs = []
        d = sut.quietly(sut.memorymap.diff, a, b)
        u = copy.deepcopy(d)
        sut.quietly(sut.memorymap.unify, u)
        sut.quietly(sut.memorymap.unify, a)
        for m, w in ((d, 'diff'), (u, 'unified diff'), (a, 'unified')):
            errs += sums(m, w)
            for t in set(d['memory_types']):
                if t not in m['memory_types']:
                    continue
                for k in ('used', 'size'):
                    if m['memory_types'][t][k] != d['memory_types'][t][k]:
                        errs.append(f'{w}: {k} of {t} changed')
        if errs:
            raise Violation('\n  '.join(errs[:8]) + f'\n{cur}\n{ref}')
        return repr(u)
    return Space('dicts', build, chk, bounds=bounds)


def large_space(counts):
    def build(c):
        return (c.choose('dimension', large.DIMS), c.choose('entries', counts), c.flag('elf'), c.flag('ref elf'), c.flag('swap'))

    def chk(sc):
        dim, n, e1, e2, swap = sc
        a, b = large.image(dim, n), large.image(dim, n, True)
        if swap:
            a, b = b, a
        return check_pair(a, b, e1, e2)
    return Space('large', build, chk, bounds=f'{len(counts)} counts up to {max(counts)} of sections/archives/objects/symbols x ELF x both directions')


def spaces(tier):
    I = c04.ITEMS
    if tier == 'quick':
        return [walk_space('walk', 2, I, c04.STARTS, None, False, '5 region layouts x 8 starts x <=2 items x symbols, '
                           'library transformations'),
                walk_space('walk-cli', 2, I, c04.STARTS, 2, True, 'same with command line pipelines, <=2 deviations'),
                family_space(2, 'project family pairs, chips, ELF, <=2 deviations, all pipelines',
                             ('.iram0.text', '.dram0.bss')),
                ext_space('external RAM and overflows x 4 chips'),
                dict_space(2, 'all pairs of 32 leaves x 4 values'), large_space(large.QUICK)]
    return [walk_space('walk', 3, I, c04.STARTS, None, False, '5 region layouts x 8 starts x <=3 items x symbols'),
            walk_space('walk-cli', 2, I, c04.STARTS, None, True, '5 layouts x 8 starts x <=2 items with command line'),
            family_space(2, 'project family pairs over all slots, chips, ELF, <=2 deviations, all pipelines'),
            ext_space('external RAM and overflows x 4 chips'),
            dict_space(3, 'all triples of 32 leaves x 4 values'), large_space(large.FULL)]
