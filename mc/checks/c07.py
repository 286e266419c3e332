"""C07: diff = current minus reference over the union."""
import copy
import os

from .. import dictmap, expect, family, imgs, large, model, proj, sut
from ..core import Prune, Space, Violation
from . import c10, c18

ASSUMPTIONS = ['library level maps are built in the documented format; command line maps come from rendered link maps']
VALUES = ((5, None), (None, 5), (5, 5), (8, 5), (5, 8))


def need(cond, msg):
    if not cond:
        raise Violation(msg[:6000])


def check_pair(a, b):
    diff = sut.memorymap.diff
    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    d = sut.quietly(diff, a, b)
    need(a == a0 and b == b0, f'diff modified its input\n{a0}\n{a}\n{b0}\n{b}')
    exp = model.ref_diff(a0, b0)
    errs = model.compare_maps(d, exp)
    for k, v in (('project_path', a0['project_path']), ('project_path_diff', b0['project_path']), ('version', a0['version'])):
        if d.get(k) != v:
            errs.append(f'{k} is {d.get(k)!r}, expected {v!r}')
    need(not errs, 'diff is wrong:\n  ' + '\n  '.join(errs[:10]) + f'\ncur={a0}\nref={b0}')
    # swapping negates
    e = sut.quietly(diff, b, a)
    neg = {k: -v for k, v in dictmap.only_diffs(d).items()}
    need(dictmap.only_diffs(e) == neg, f'swapped diff is not the negation:\n{d}\n{e}')
    # nothing is shared
    d0 = copy.deepcopy(d)
    dictmap.scramble(d)
    need(a == a0 and b == b0, f'the result of diff shares parts with its inputs\ncur={a0}\nref={b0}')
    d = sut.quietly(diff, a, b)
    dictmap.scramble(a)
    dictmap.scramble(b)
    need(d == d0, 'changing an input of diff changed its result')
    # self diff
    s = sut.quietly(diff, a0, copy.deepcopy(a0))
    bad = {k: v for k, v in dictmap.only_diffs(s).items() if v}
    need(not bad, f'diff of a map with itself: {bad}')
    s = sut.quietly(diff, b0, b0)
    bad = {k: v for k, v in dictmap.only_diffs(s).items() if v}
    need(not bad, f'diff of a map with itself (same object): {bad}')
    return repr(d0)


def leaf_space(n, values, leaves, name):
    def build(c):
        pick = []
        lo = 0
        for i in range(n):
            k = c.choose(f'leaf{i}', range(lo, len(leaves))) if lo < len(leaves) else None
            if k is None:
                raise Prune()
            lo = k + 1
            pick.append((k, c.choose(f'value{i}', values)))
        return tuple(pick)

    def chk(pick):
        cur, ref = {}, {}
        for k, (x, y) in pick:
            if x is not None:
                cur[leaves[k]] = x
            if y is not None:
                ref[leaves[k]] = y
        return check_pair(dictmap.build(cur), dictmap.build(ref, path='/q/ref.map', image=990))
    return Space(name, build, chk, bounds=f'all {n}-sets of {len(leaves)} leaves x {len(values)} (current, reference) values')


SMALL = [p for p in dictmap.LEAVES if p[0] == 'IRAM' or p[1:] == ('.iram0.text', 'p/liba.a', 'd/x.o', 'f')]


def meta_space():
    """Totals, targets, empty maps, memory types without sections, padding, entries without children."""
    L = ('IRAM', '.iram0.text', 'p/liba.a', 'd/x.o', 'f')

    def build(c):
        def side(tag):
            return (c.choose(f'{tag}leaf', (None, L, L[:4], L[:3], L[:2])), c.choose(f'{tag}padding', (0, 3, 7)),
                    c.choose(f'{tag}capacity', (0x1000, 0, 0x2000)), c.choose(f'{tag}image', (1000, 0, 2000)),
                    c.choose(f'{tag}extra types', ((), ('DRAM',), ('DRAM', 'IRAM'))),
                    c.choose(f'{tag}target', ('esp32', 'esp32s3')))
        return (side('cur '), side('ref '))

    def mk(s, path):
        leaf, pad, cap, image, types, target = s
        return dictmap.build({leaf: 9} if leaf else {}, {('IRAM', '.iram0.text'): pad} if pad else None,
                             {'IRAM': cap, 'DRAM': cap // 2}, target=target, image=image, path=path, types=types)

    def chk(sc):
        return check_pair(mk(sc[0], '/p/a.map'), mk(sc[1], '/q/b.map'))
    return Space('meta', build, chk, budget=5, bounds='entry depth, padding, capacity, image size, types, target on both '
                                                      'sides, <=5 deviations')


CLI_REPORTS = (('raw', None), ('csv', None), ('json2', 'files'), ('table', 'archives'), ('tree', None),
               ('json2', 'archives'), ('json2', ('details', 'liba.a')))


def cli_space(budget, quick=False):
    """Same differences through the command line, all preprocessing options."""
    def build(c):
        cur, ref = family.pick(c), family.pick(c, 'ref')
        return (cur, ref, c.choose('ref chip', ('esp32', 'esp32s3', 'esp32p4')), c.flag('show-unused'),
                c.flag('use-flash-size'), c.choose('names', ('full', 'unify', 'abbrev')), c.flag('elf'), c.flag('ref elf'))

    def chk(sc):
        cur, ref, chip, unused, flash, names, e1, e2 = sc
        img, rimg = family.make(cur), family.make(ref, chip)
        for i, e in ((img, e1), (rimg, e2)):
            if e:
                imgs.autosyms(i)
        mp, rp = family.put('cur', img, elf=e1), family.put('ref', rimg, elf=e2)
        out = ''
        for fmt, rep in CLI_REPORTS[:4 if quick else None]:
            o = expect.O(fmt=fmt, unused=unused, flash=flash, unchanged=True, abbrev=names != 'full',
                         unify=names == 'unify')
            if rep:
                c10.set_report(o, rep)
            r, m = expect.verify(o, mp, img, rp, rimg, e1, e2)
            warned = chip in r.err and 'esp32' in r.err and 'target' in r.err.lower()
            need(warned == (chip != 'esp32'), f'{sc} {o!r}: warning about different targets: {r.err}')
            if fmt == 'raw':
                import json
                g = json.loads(r.out)
                need(g['project_path'] == mp and g['project_path_diff'] == rp,
                     f'project paths: {g["project_path"]} {g["project_path_diff"]}')
            out += r.out
            if fmt in ('csv', 'table'):
                o.unchanged = False
                expect.verify(o, mp, img, rp, rimg, e1, e2)
        return out
    return Space('cli', build, chk, budget=budget, bounds=f'family pairs x reference chip x options x ELF on either side, '
                                                          f'<= {budget} deviations')


def pair_space():
    def build(c):
        return (c.choose('pair', family.PAIRS), c.flag('show-unused'), c.flag('use-flash-size'), c.flag('swapped'))

    def chk(sc):
        (cur, ref), unused, flash, swapped = sc
        if swapped:
            cur, ref = ref, cur
        img, rimg = family.make(cur), family.make(ref)
        mp, rp = family.put('cur', img), family.put('ref', rimg)
        out = ''
        for fmt in ('raw', 'csv', 'table'):
            for un in (False, True):
                o = expect.O(fmt=fmt, unused=unused, flash=flash, unchanged=un)
                out += expect.verify(o, mp, img, rp, rimg)[0].out
        # the library gives the same
        a, b = sut.get(mp)[0], sut.get(rp)[0]
        out += check_pair(a, b)
        return out
    return Space('pairs', build, chk, bounds=f'{len(family.PAIRS)} pairs x direction x unused x flash size')


def same_dir_space():
    """Both maps in one directory (same project path for relative and absolute names), also the same file."""
    def build(c):
        return (c.choose('pair', family.PAIRS[:12]), c.choose('names', ('different', 'same file', 'relative', 'relative same')),
                c.choose('report', CLI_REPORTS))

    def chk(sc):
        (cur, ref), names, (fmt, rep) = sc
        same = 'same' in names
        img = family.make(cur)
        rimg = img if same else family.make(ref)
        d = os.path.join(sut.WDIR, 'both')
        mp = proj.put(d, img)
        rp = mp
        if not same:
            rp = os.path.join(d, 'other.map')
            with open(rp, 'w') as f:
                f.write(model.render(rimg))
        if names.startswith('relative'):
            os.chdir(d)
            mp, rp = os.path.basename(mp), os.path.basename(rp)
        try:
            o = expect.O(fmt=fmt, unchanged=True)
            if rep:
                c10.set_report(o, rep)
            r, _ = expect.verify(o, mp, img, rp, rimg)
            if fmt == 'raw':
                import json
                g = json.loads(r.out)
                need(os.path.abspath(g['project_path']) == os.path.abspath(mp) and
                     os.path.abspath(g['project_path_diff']) == os.path.abspath(rp),
                     f'project paths: {g["project_path"]} {g["project_path_diff"]}')
        finally:
            os.chdir(sut.WDIR)
        return r.out
    return Space('same-directory', build, chk, bounds='12 pairs x same/other file of one directory, absolute and relative x 7 reports')


def base_spaces(tier):
    if tier == 'quick':
        return [leaf_space(1, VALUES, dictmap.LEAVES, 'leaves-1'), leaf_space(2, VALUES, dictmap.LEAVES, 'leaves-2'),
                leaf_space(3, VALUES[:4], SMALL, 'leaves-3'), meta_space(), pair_space(), same_dir_space(), c18.diff_space(), cli_space(2, True)]
    return [leaf_space(2, VALUES, dictmap.LEAVES, 'leaves-2'), leaf_space(3, VALUES, SMALL, 'leaves-3'),
            leaf_space(3, VALUES[:4], dictmap.LEAVES, 'leaves-3-wide'), meta_space(), pair_space(), same_dir_space(), c18.diff_space(), cli_space(3)]


def spaces(tier):
    n = large.QUICK if tier == 'quick' else large.FULL
    return base_spaces(tier) + [large.space(('summary', 'archives', 'files', 'details'), ('table', 'raw'), names=('full',), diffs=(True,), elfs=(False, True), tweaks=({'unchanged': True},), counts=n)]
