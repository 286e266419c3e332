"""C08: unify regroups by abbreviated names and preserves all sums."""
import copy

from .. import dictmap, expect, family, imgs, large, model, sut
from ..core import Prune, Space
from . import c07, c10

ASSUMPTIONS = c07.ASSUMPTIONS
need = c07.need

SECS = ('.iram0.text', '.iram1.text', '.flash.rodata')
ARCHS = ('p/liba.a', 'q/liba.a', 'p/libb.a')
OBJS = ('d/x.o', 'e/x.o', 'y.o')
SYMS = ('f', 'g')
LEAVES = [(t, s, a, o, y) for t in ('IRAM', 'DRAM') for s in SECS for a in ARCHS for o in OBJS for y in SYMS]


def totals(m):
    t = {}
    for tn, ti in m['memory_types'].items():
        for k in ('size', 'used', 'size_diff', 'used_diff'):
            t[tn, k] = ti[k]
        for k in ('size', 'size_diff'):
            t[tn, 'sections', k] = sum(s[k] for s in ti['sections'].values())
            t[tn, 'archives', k] = sum(a[k] for s in ti['sections'].values() for a in s['archives'].values())
            t[tn, 'objects', k] = sum(o[k] for s in ti['sections'].values() for a in s['archives'].values()
                                      for o in a['object_files'].values())
            t[tn, 'symbols', k] = sum(y[k] for s in ti['sections'].values() for a in s['archives'].values()
                                      for o in a['object_files'].values() for y in o['symbols'].values())
    return t


def unified(m):
    m = copy.deepcopy(m)
    r = sut.quietly(sut.memorymap.unify, m)
    need(r is None or r is m, f'unify returned {r!r}')
    return m


def same(a, b, what):
    need(a == b, f'{what}:\n{a}\n{b}')


def check_map(m, ref=None):
    u = unified(m)
    errs = model.compare_maps(u, model.ref_unify(m))
    for k in m:
        if k != 'memory_types' and u.get(k) != m[k]:
            errs.append(f'{k} changed from {m[k]!r} to {u.get(k)!r}')
    need(not errs, 'unified map is wrong:\n  ' + '\n  '.join(errs[:10]) + f'\nmap={m}')
    same(totals(u), totals(m), 'unify changed totals')
    same(sut_sorted(unified(u)), sut_sorted(u), 'unify is not idempotent')
    # structure stays that of a plain memory map: it can be diffed
    if ref is not None:
        ur = unified(ref)
        ref0 = copy.deepcopy(ref)
        a = sut.quietly(sut.memorymap.diff, u, ur)
        b = unified(sut.quietly(sut.memorymap.diff, m, ref))
        same(a, b, 'the difference of unified maps is not the unified difference')
        need(ref == ref0, 'diff changed its input')
        errs = model.compare_maps(b, model.ref_unify(model.ref_diff(m, ref)))
        need(not errs, 'unified diff is wrong:\n  ' + '\n  '.join(errs[:10]) + f'\ncur={m}\nref={ref}')
        same(totals(b), totals(sut.quietly(sut.memorymap.diff, m, ref)), 'unify changed totals of a difference')
    # the original map of a copy is not affected by later changes of the unified one
    return repr(u)


def sut_sorted(m):
    return m


def leaf_space(n, leaves, name, values):
    def build(c):
        pick, lo = [], 0
        for i in range(n):
            if lo >= len(leaves):
                raise Prune()
            k = c.choose(f'leaf{i}', range(lo, len(leaves)))
            lo = k + 1
            pick.append((k, c.choose(f'value{i}', values)))
        return tuple(pick)

    def chk(pick):
        cur, ref = {}, {}
        for i, (k, (x, y)) in enumerate(pick):
            if x is not None:
                cur[leaves[k]] = x + (16 << (4 * i))
            if y is not None:
                ref[leaves[k]] = y + (16 << (4 * i))
        pad = {('IRAM', '.iram0.text'): 3, ('IRAM', '.iram1.text'): 4}
        return check_map(dictmap.build(cur, pad, types=('RTC',)), dictmap.build(ref, path='/q/r.map', image=7))
    return Space(name, build, chk, bounds=f'all {n}-sets of {len(leaves)} leaves x {len(values)} values')


# all leaves whose abbreviated path collides with the first one, plus their neighbours
CORE = [p for p in LEAVES if p[0] == 'IRAM' and p[1] != '.flash.rodata' and p[2] != 'p/libb.a' and p[3] != 'y.o']


def history_space(depth):
    """All sequences of unify/diff over two maps give what the reference transformations give."""
    OPS = ('unify a', 'unify b', 'a = diff(a, b)', 'a = diff(b, a)')

    def build(c):
        ops = []
        for i in range(depth):
            op = c.choose(f'op{i}', (None,) + OPS)
            if op is None:
                break
            ops.append(op)
        return (c.choose('maps', range(4)), tuple(ops))

    L = CORE
    MAPS = [({L[0]: 16, L[-1]: 33}, {L[0]: 16}), ({p: 3 + i for i, p in enumerate(L)}, {p: 5 for p in L[::2]}),
            ({}, {L[3]: 4, L[5]: 4}), ({L[1]: 8, L[2]: 8}, {L[2]: 8, L[1]: 8})]

    def chk(sc):
        n, ops = sc
        a, b = dictmap.build(MAPS[n][0]), dictmap.build(MAPS[n][1], path='/q/r.map')
        ra, rb = copy.deepcopy(a), copy.deepcopy(b)
        for op in ops:
            if op == 'unify a':
                sut.quietly(sut.memorymap.unify, a)
                ra = {**model.ref_unify(ra)}
            elif op == 'unify b':
                sut.quietly(sut.memorymap.unify, b)
                rb = {**model.ref_unify(rb)}
            else:
                x, y = (a, b) if op.endswith('(a, b)') else (b, a)
                rx, ry = (ra, rb) if op.endswith('(a, b)') else (rb, ra)
                a = sut.quietly(sut.memorymap.diff, x, y)
                ra = model.ref_diff(rx, ry)
            errs = model.compare_maps(a, ra, False) + model.compare_maps(b, rb, False)
            need(not errs, f'after {op} in {ops}:\n  ' + '\n  '.join(errs[:8]))
        return repr(a)
    return Space('histories', build, chk, bounds=f'all sequences of <= {depth} unify/diff operations over 4 map pairs')


REPORTS = (('raw', None), ('json2', None), ('table', None), ('csv', 'archives'), ('json2', 'archives'), ('json2', 'files'),
           ('table', 'files'), ('json2', ('details', 'liba.a')), ('csv', ('details', 'liba.a')), ('tree', None),
           ('tree', 'files'))


def cli_space(budget):
    """Reports with --unify."""
    def build(c):
        cur = family.pick(c)
        ref = family.pick(c, 'ref') if c.flag('diff') else None
        return (cur, ref, c.flag('elf'), c.flag('no-abbrev'), c.flag('show-unused'))

    def chk(sc):
        cur, ref, elf, noabbrev, unused = sc
        img = family.make(cur)
        rimg = family.make(ref) if ref else None
        for i in (img, rimg):
            if elf and i is not None:
                imgs.autosyms(i)
        mp = family.put('cur', img, elf=elf)
        rp = family.put('ref', rimg, elf=elf) if rimg else None
        out = ''
        for fmt, rep in REPORTS:
            o = expect.O(fmt=fmt, unify=True, abbrev=not noabbrev, unused=unused)
            if rep:
                c10.set_report(o, rep)
            r, _ = expect.verify(o, mp, img, rp, rimg, elf, elf)
            need(('no-abbrev' in r.err) == noabbrev, f'{sc} {o!r}: warning about --no-abbrev: {r.err}')
            out += r.out
        a, b = sut.get(mp)[0], sut.get(rp)[0] if rp else None
        return out + check_map(a, b)
    return Space('cli', build, chk, budget=budget, bounds=f'family projects, <= {budget} deviations, 11 unified reports')


NAMES = {
    1: ('.iram0.text', '.text', '.text0', '.text_0', '.iram.text0', '.x.text1', '.y.text2', '.text.1', '.text.2', '.TEXT', '.x.y.text', 'text',
        '.x_text', '.x-text', '.text.', '.dummy'),
    2: ('liba.a', 'p/liba.a', 'p/q/liba.a', '/liba.a', 'p/lib/a.a', 'p/LIBA.a', 'p/liba1.a', 'p/liba2.a', 'liba', 'p/liba', '(exe)',
        'p/liba.A', 'p/a.a', 'p/lib a.a', 'p/xliba.a', 'p/liba.a/'[:-1] + '.o'),
    3: ('x.o', 'd/x.o', 'd/e/x.o', '/x.o', 'x1.o', 'x2.o', 'x.obj', 'x', 'd/x', 'X.o', 'd/y/x.c.o', 'x.c.o', 'x.cpp.o', 'yx.o', 'x.o.o', 'd x.o'),
    4: ('f', 'f()', 'g', '.f', '.text.f', '.rodata.f', 'f.0', 'f.1', 'a/f', 'b/f', 'F', '', 'f ', 'p/f()', 'f0', 'f1'),
}


def names_space():
    """All pairs of names at one level, with the rest equal."""
    base = ('IRAM', '.iram0.text', 'p/liba.a', 'd/x.o', 'f')

    def build(c):
        lv = c.choose('level', sorted(NAMES))
        return lv, c.choose('first', NAMES[lv]), c.choose('second', NAMES[lv]), c.flag('other type')

    def chk(sc):
        lv, a, b, other = sc
        if a == b and not other:
            return None
        p, q = list(base), list(base)
        p[lv], q[lv] = a, b
        if other:
            q[0] = 'DRAM'
        p, q = tuple(p), tuple(q)
        return check_map(dictmap.build({p: 16, q: 33}), dictmap.build({q: 5}, path='/q/r.map'))
    return Space('names', build, chk, bounds='all ordered pairs of 16 names at each of 4 levels x same/other memory type')


MAP_NAMES = {
    'section': ('.iram0.text', '.iram1.text', '.iram.text0', '.iram.text1', '.iram.text_0', '.iram.TEXT', '.iram.x.text', '.iram.text.1',
                '.iram-text', '.iramtext'),
    'archive': ('liba.a', 'p/liba.a', 'p/q/liba.a', '/liba.a', 'p/LIBA.a', 'p/liba1.a', 'p/liba2.a', 'p/xliba.a', None),
    'object': ('x.o', 'd/x.o', 'd/e/x.o', '/x.o', 'x1.o', 'x.obj', 'X.o', 'd/x.c.o', 'x.c.o', 'yx.o'),
    'input': ('.text.f', '.text.f1', '.text.f2', '.text.F', '.text.f.0', '.literal.f', '.text.g.f', '.text'),
}


def map_names_space():
    """All pairs of names of one kind in link maps."""
    def build(c):
        k = c.choose('kind', sorted(MAP_NAMES))
        return k, c.choose('first', MAP_NAMES[k]), c.choose('second', MAP_NAMES[k]), c.flag('elf')

    def chk(sc):
        kind, a, b, elf = sc
        base = {'section': '.iram0.text', 'archive': 'p/liba.a', 'object': 'd/x.o', 'input': '.text.f'}
        p, q = {**base, kind: a}, {**base, kind: b}
        cont = {}
        for x, n in ((p, 0x20), (q, 0x31)):
            cont.setdefault(x['section'], []).append((x['archive'], x['object'], x['input'], n))
        img = imgs.image(list(cont.items()))
        mp = family.put('cur', img, elf=elf)
        out = ''
        for fmt, rep in (('raw', None), ('csv', 'archives'), ('csv', 'files'), ('csv', ('details', 'liba.a'))):
            o = expect.O(fmt=fmt, unify=True)
            if rep:
                c10.set_report(o, rep)
            out += expect.verify(o, mp, img, None, None, elf)[0].out
        return out + check_map(sut.get(mp)[0])
    return Space('map-names', build, chk, bounds='all ordered pairs of up to 10 names of 4 kinds x ELF x 4 unified reports')


def base_spaces(tier):
    if tier == 'quick':
        return [leaf_space(2, LEAVES, 'leaves-2', ((5, 5), (5, None), (None, 5))),
                leaf_space(3, CORE, 'leaves-3', ((5, 5), (8, 5), (5, None), (None, 5))),
                names_space(), map_names_space(), history_space(4), cli_space(2)]
    return [leaf_space(2, LEAVES, 'leaves-2', c07.VALUES), leaf_space(3, LEAVES, 'leaves-3-wide', ((5, 3),)),
            leaf_space(4, CORE, 'leaves-4', ((5, 5), (8, 5), (5, None), (None, 5))), names_space(), map_names_space(), history_space(6), cli_space(3)]


def spaces(tier):
    n = large.QUICK if tier == 'quick' else large.FULL
    return base_spaces(tier) + [large.space(('summary', 'archives', 'files', 'details'), ('table', 'raw'), names=('unify',), counts=n)]
