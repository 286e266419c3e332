"""C13: what reports hide.  Every level independently changed / unchanged / offsetting, and unused entries."""
from .. import expect, family, imgs, large, model
from ..core import Space
from . import c10

ASSUMPTIONS = ['a memory type, section or archive whose own difference is zero hides everything below it']
FORMATS = ('table', 'csv', 'json2', 'tree', 'raw')
REPS = (None, 'archives', 'files', ('details', 'liba.a'))

# leaves of the changing project: (section, archive, object, input section)
LEAVES = [
    ('.iram0.text', family.A1, 'x.c.obj', '.text.f'), ('.iram0.text', family.A1, 'x.c.obj', '.text.g'),
    ('.iram0.text', family.A1, 'y.c.obj', '.text.f'), ('.iram0.text', family.B, 'x.c.obj', '.text.f'),
    ('.iram1.text', family.A1, 'x.c.obj', '.text.f'), ('.iram1.text', family.A2, 'x.c.obj', '.text.f'),
    ('.dram0.data', family.A1, 'x.c.obj', '.data.d'), ('.dram0.data', family.B, 'y.c.obj', '.data.d'),
    ('.flash.text', family.A1, 'x.c.obj', '.text.f'),
]
DELTAS = (0, 4, -4, None, 1, -1)   # None: absent in the reference


def project(sizes, elf):
    cont = {}
    for (s, a, o, n), z in zip(LEAVES, sizes):
        if z:
            cont.setdefault(s, []).append((a, o, n, z))
    img = imgs.image(list(cont.items()))
    return imgs.autosyms(img) if elf else img


class Case:
    def __init__(self, deltas, o, reps, elf):
        self.deltas, self.o, self.reps, self.elf = deltas, o, reps, elf

    def __repr__(self):
        return f'deltas={self.deltas} {self.o!r} {self.reps} elf={self.elf}'


def check(case):
    cur = project([0x40 + i for i in range(len(LEAVES))], case.elf)
    ref = project([0 if dl is None else 0x40 + i - dl for i, dl in enumerate(case.deltas)], case.elf)
    mp, rp = family.put('cur', cur, elf=case.elf), family.put('ref', ref, elf=case.elf)
    out = ''
    for fmt in FORMATS:
        for rep in case.reps:
            case.o.fmt = fmt
            case.o.report, case.o.details = 'summary', None
            if rep:
                c10.set_report(case.o, rep)
            out += expect.verify(case.o, mp, cur, rp, ref, case.elf, case.elf)[0].out
            # and the other direction: entries only in the reference
            if rep is None or fmt == 'tree':
                expect.verify(case.o, rp, ref, mp, cur, case.elf, case.elf)
    return out


def change_space(budget):
    def build(c):
        d = tuple(c.choose(f'delta{i}', DELTAS) for i in range(len(LEAVES)))
        o = expect.O(unchanged=c.flag('show-unchanged', free=True))
        nm = c.choose('names', ('full', 'abbrev', 'unify'))
        o.abbrev, o.unify = nm != 'full', nm == 'unify'
        o.unused = c.flag('show-unused')
        return Case(d, o, REPS, c.flag('elf'))
    return Space('changes', build, check, budget=budget,
                 bounds=f'9 leaves each unchanged/grown/shrunk/new (offsetting included), <= {budget} deviations, x '
                        f'show-unchanged x 5 formats x 4 reports, both directions')


SLOTS = ('.iram0.vectors', '.iram0.text', '.iram1.text', '.dram0.bss', '.dram0.data', '.flash.rodata', '.flash.text',
         '.rtc.data')

OVERFLOWS = ('.dram1.data',)    # placed in the gap above the data memory region


def unused_space(n):
    """Each section with archives / only padding / absent: unused removal, with and without diff."""
    def build(c):
        def one(tag):
            return tuple(c.choose(f'{tag}{s}', ('archives', 'padding', 'absent', 'empty')) for s in SLOTS[:n]) + \
                tuple(c.choose(f'{tag} {s}', ('absent', 'padding', 'archives')) for s in OVERFLOWS)
        cur = one('')
        ref = one('ref') if c.flag('diff') else None
        return (cur, ref, c.flag('show-unused', free=True), c.flag('show-unchanged') if ref else False,
                c.choose('names', ('full', 'unify')))

    def image(kinds, k):
        cont = []
        for i, (s, kd) in enumerate(zip(SLOTS, kinds)):
            if kd == 'archives':
                cont.append((s, [(family.A1, 'x.c.obj', '.text.a', 0x20 + i), ('fill', 4)]))
            elif kd == 'empty':
                cont.append((s, [(family.B, 'x.c.obj', '.text.z', 0), (family.A1, 'x.c.obj', '.text.a', 0x20 + i)]))
            elif kd == 'padding':
                cont.append((s, [('fill', (0x10 << (i % 3 * 4)) + i)]))
        img = imgs.image(cont)
        for s, kd in zip(OVERFLOWS, kinds[n:]):
            r = imgs.region_of(img.target, s, img.regions)
            lay = model.Layout(s, r[1] + r[2] + 0x100, 'progbits')
            if kd == 'archives':
                lay.ins('.data.o', 0x28, family.A1, 'x.c.obj')
            elif kd == 'padding':
                lay.fill(0x18)
            if kd != 'absent':
                img.outs.append(lay.out)
        return img

    def chk(sc):
        cur, ref, unused, unchanged, names = sc
        img = image(cur, 0)
        rimg = image(ref, 1) if ref else None
        mp = family.put('cur', img)
        rp = family.put('ref', rimg) if ref else None
        o = expect.O(unused=unused, unchanged=unchanged, abbrev=names != 'full', unify=names == 'unify')
        out = ''
        for fmt, rep in (('table', 'summary'), ('json2', 'summary'), ('tree', 'summary'), ('raw', 'summary'),
                         ('csv', 'archives'), ('json2', 'files')):
            o.fmt, o.report = fmt, rep
            out += expect.verify(o, mp, img, rp, rimg)[0].out
        return out
    return image, build, chk


def make_unused(n, budget):
    _, build, chk = unused_space(n)
    return Space('unused', build, chk, budget=budget, bounds=f'{n} sections each with archives/padding only/absent, same '
                                                             f'for the reference, <= {budget} deviations')


def make_unused_full(n):
    image, _, chk = unused_space(n)

    def build(c):
        cur = tuple(c.choose(s, ('archives', 'padding', 'absent')) for s in SLOTS[:n])
        return (cur, None, c.flag('show-unused'), False, 'full')
    return Space('unused-all', build, chk, bounds=f'all 3^{n} projects of {n} sections, no reference')


def depth_space():
    """Depth of the tree for every combination of detail options."""
    def build(c):
        return (tuple(c.subset('option', ('--archives', '--files', '--archive-details'))), c.flag('diff'), c.flag('elf'),
                c.flag('unchanged'))

    def chk(sc):
        opts, diff, elf, unchanged = sc
        from .. import reports
        from ..core import Violation
        cur = project([0x40 + i for i in range(len(LEAVES))], elf)
        ref = project([0x40 + i - (i % 3) for i in range(len(LEAVES))], elf)
        mp, rp = family.put('cur', cur, elf=elf), family.put('ref', ref, elf=elf) if diff else None
        o = expect.O(fmt='tree', unchanged=unchanged)
        extra = [x for x in opts if x != '--archive-details']
        if '--archive-details' in opts:
            o.report, o.details = 'details', 'liba.a'
        elif '--archives' in opts:
            o.report = 'archives'
        elif '--files' in opts:
            o.report = 'files'
        m = expect.expected_map(o, cur, ref if diff else None, elf, elf)
        base = expect.O(fmt='tree', unchanged=unchanged)
        a = extra + (['--archive-details', 'liba.a'] if o.report == 'details' else [])
        r = expect.run(base, mp, rp, *a)
        got = expect.canon_tree(reports.tree(r.out, diff))
        exp = expect.canon_tree(expect.tree(o, m, ref if diff else None))
        if r.rc or got != exp:
            raise Violation(f'{sc}: tree\n  {got}\nexpected\n  {exp}\n{r}')
        return r.out
    return Space('depth', build, chk, bounds='all subsets of --archives/--files/--archive-details x diff x ELF')


def capacity_space(full):
    """The capacity of memory types differs between the two projects, independently of what is used."""
    caps = ('same', 'smaller', 'zero')
    regs = ('iram0_0_seg', 'dram0_0_seg', 'iram0_2_seg', 'rtc_slow_seg')

    def build(c):
        k = {r: c.choose(f'reference {r}', caps) for r in regs}
        d = tuple(c.choose(f'delta{i}', (0, 4)) if i in (0, 6, 8) else 0 for i in range(len(LEAVES)))
        o = expect.O(unchanged=c.flag('show-unchanged'), unused=c.flag('show-unused'), flash=c.flag('use-flash-size'))
        o.unify = c.flag('unify')
        return (tuple(k.items()), d, o)

    def chk(sc):
        k, d, o = sc
        cur = project([0x40 + i for i in range(len(LEAVES))], False)
        ref = project([0x40 + i - dl for i, dl in enumerate(d)], False)
        k = dict(k)
        ref.regions = [(n, a, {'same': z, 'smaller': z - 0x1000, 'zero': 0}[k.get(n, 'same')], at)
                       for n, a, z, at in ref.regions]
        mp, rp = family.put('cur', cur), family.put('ref', ref)
        out = ''
        for fmt, rep in (('table', 'summary'), ('csv', 'summary'), ('json2', 'summary'), ('tree', 'summary'),
                         ('csv', 'archives')):
            o.fmt, o.report = fmt, rep
            out += expect.verify(o, mp, cur, rp, ref)[0].out
            expect.verify(o, rp, ref, mp, cur)
        return out
    return Space('capacity', build, chk, budget=None if full else 3,
                 bounds='reference capacity of 4 regions same/smaller/zero x used changes x options, both directions'
                        + ('' if full else ' (<=3 deviations)'))


def base_spaces(tier):
    if tier == 'quick':
        return [change_space(2), make_unused(7, 2), make_unused_full(5), capacity_space(False), depth_space()]
    return [change_space(3), make_unused(8, 3), make_unused_full(7), capacity_space(True), depth_space()]


def spaces(tier):
    n = large.QUICK if tier == 'quick' else large.FULL
    return base_spaces(tier) + [large.space(('summary', 'archives', 'files', 'details'), ('table', 'tree'), names=('full',), diffs=(True,), tweaks=({}, {'unchanged': True}), counts=n)]
