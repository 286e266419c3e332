"""C10: archive, file and symbol reports agree with the memory map cell by cell."""
from .. import expect, family, imgs, large
from ..core import Space
from . import c09

ASSUMPTIONS = c09.ASSUMPTIONS
FORMATS = ('table', 'csv', 'json2')
REPORTS = ('archives', 'files', ('details', 'liba.a'), ('details', 'libb.a'), ('details', '(exe)'),
           ('details', 'nosuch.a'), ('details', 'esp-idf/a/liba.a'))


def set_report(o, rep):
    if isinstance(rep, tuple):
        o.report, o.details = rep
    else:
        o.report = rep


class Case(c09.Case):
    def __init__(self, cur, ref, opts, elf, reps=REPORTS):
        super().__init__(cur, ref, opts)
        self.elf, self.reps = elf, reps

    def __repr__(self):
        return super().__repr__() + f' elf={self.elf} reports={self.reps}'


def images(case):
    img = family.make(case.cur)
    ref = family.make(case.ref) if case.ref is not None else None
    for i in (img, ref):
        if case.elf and i is not None:
            imgs.autosyms(i, skip=('.rodata.str1.4',))
    return img, ref


def check(case):
    img, ref = images(case)
    mp = family.put('cur', img, elf=case.elf)
    rp = family.put('ref', ref, elf=case.elf) if ref is not None else None
    outs = []
    for fmt in FORMATS:
        for rep in case.reps:
            case.opts.fmt = fmt
            set_report(case.opts, rep)
            r, _ = expect.verify(case.opts, mp, img, rp, ref, case.elf, case.elf)
            outs.append(r.out)
    # tree and raw show the same entries
    for fmt in ('tree', 'raw'):
        for rep in case.reps[:3]:
            case.opts.fmt = fmt
            set_report(case.opts, rep)
            expect.verify(case.opts, mp, img, rp, ref, case.elf, case.elf)
    return ''.join(outs)


def options(c, diff):
    o = expect.O()
    nm = c.choose('names', ('abbrev', 'full', 'unify'))
    o.abbrev, o.unify = nm != 'full', nm == 'unify'
    o.unused = c.flag('show-unused')
    if diff:
        o.unchanged = c.flag('show-unchanged')
    return o


def pair_space(pairs):
    def build(c):
        cur, ref = c.choose('projects', pairs)
        if not c.flag('diff'):
            ref = None
        elf = c.flag('elf')
        return Case(cur, ref, options(c, ref is not None), elf)
    return Space('pairs', build, check, bounds=f'{len(pairs)} project pairs x options x reports x formats')


def layout_space(budget):
    def build(c):
        cur = family.pick(c)
        diff = c.flag('diff')
        ref = family.pick(c, 'ref') if diff else None
        elf = c.flag('elf')
        return Case(cur, ref, options(c, diff), elf, REPORTS[:3])
    return Space('layouts', build, check, budget=budget, bounds=f'<= {budget} deviations from the default project')


# Placement of two or three input sections: the names that may collide, in all combinations
ARCH = ('esp-idf/a/liba.a', '/opt/other/liba.a', 'esp-idf/b/libb.a', None, 'esp-idf/a/xliba.a', 'esp-idf/a/liba.ab', 'esp-idf/b/../a/liba.a')
OBJ = ('x.c.obj', 'sub/x.c.obj', 'x.o')
SEC = ('.iram0.text', '.iram1.text', '.flash.text')


def collide_space(n, fmts=('table', 'json2'), elf=False):
    def build(c):
        its = []
        for i in range(n):
            its.append((c.choose(f'section{i}', SEC), c.choose(f'archive{i}', ARCH), c.choose(f'object{i}', OBJ),
                        c.choose(f'symbol{i}', ('.text.f', '.text.g'))))
        if its != sorted(its, key=repr):
            from ..core import Prune
            raise Prune()   # the linker emits them section by section; the order inside is covered by C01
        nm = c.choose('names', ('abbrev', 'full', 'unify'))
        return (tuple(its), nm)

    def chk(sc):
        its, nm = sc
        cont = {}
        for k, (s, a, o, y) in enumerate(its):
            cont.setdefault(s, []).append((a, o, y, 0x10 << (3 * k)))
        img = imgs.image(list(cont.items()))
        if elf:
            imgs.autosyms(img)
        mp = family.put('cur', img, elf=elf)
        o = expect.O(abbrev=nm != 'full', unify=nm == 'unify')
        out = ''
        for fmt in fmts:
            for rep in ('archives', 'files', ('details', 'liba.a')):
                o.fmt = fmt
                set_report(o, rep)
                out += expect.verify(o, mp, img, None, None, elf)[0].out
        return out
    return Space('collisions', build, chk, bounds=f'all {n}-sets of input sections over {len(SEC)} sections, '
                                                  f'{len(ARCH)} archives, {len(OBJ)} objects, 2 symbols x name modes')


def base_spaces(tier):
    if tier == 'quick':
        return [pair_space(family.PAIRS), layout_space(2), collide_space(2, ('table',))]
    return [pair_space(family.PAIRS), layout_space(3), collide_space(2), collide3()]


def collide3():
    s = collide_space(3, ('json2',))
    s.name = 'collisions-3'
    s.budget = 6
    return s


def spaces(tier):
    n = large.QUICK if tier == 'quick' else large.FULL
    return base_spaces(tier) + [large.space(('archives', 'files', 'details'), ('table', 'csv', 'json2'), elfs=(False, True), counts=n)]
