"""C12: filtering. All sets of <=2 patterns over the pattern alphabet x reports x name forms."""
from .. import depsref, expect, family, imgs, large, reports
from ..core import Prune, Space, Violation

ASSUMPTIONS = ['POSIX file system: patterns are case sensitive', 'wildcard matcher of the oracle is independent of fnmatch']

PATTERNS = ('liba', 'LIBA', '*', 'lib?.a', 'l*b', '[ab].a', '[!a].a', '.a', 'esp-idf', 'x.c', '?.c.obj', 'nosuch', '^lib',
            'liba.a$', 'b?*', '[a-b].', '[', '[a', ']', '[]x]', '', 'a.a:x', 'fo', 'fo()', '()', 'o(', '[!]]', 'bar*', '/a/',
            'd.b', 'ob', '+', 'x+', 'a|b', '.*', 'obj*lib', '-', '_', ' ', 'e ', ' e', 'p q', ',', 'lib,', 'a,b', '\\', '{a,b}', 'LIB[a', '#', '~', '"', "'", 'ns::', 'n:s', ':')
L1, L2, L3, L4, L5 = 'esp-idf/a/liba.a', '/opt/o/liba.a', 'esp-idf/b/libb.a', 'esp-idf/c/Lib[a]+.a', 'esp-idf/d-d/libd.b'
L6 = 'my comp q/libe,b.a'


def image():
    items = [(L1, 'x.c.obj', '.text.fo', 0x50), (L1, 'y.c.obj', '.text.foo', 0x40), (L2, 'x.c.obj', '.text.bar_fo', 0x45),
             (L3, 'sub/x.c.obj', '.text.b', 0x30), (L4, 'X.c.obj', '.text.fo', 0x60), (L5, 'z.cpp.obj', '.text.baz', 0x50),
             (None, 'main.dir/x.c.obj', '.text.main', 0x10), (L1, 'x.c.obj', '.text.FO', 0x11), (L6, 'e.c.obj', '.text.q', 0x12),
             (L1, 'n:s.c.obj', '.text.ns::fo', 0x13)]
    img = imgs.image([('.iram0.text', items), ('.dram0.data', [(a, o, n.replace('text', 'data') + 'd', s + 1)
                                                               for a, o, n, s in items[::-1]])])
    imgs.autosyms(img)
    f = depsref.ref
    img.crt = [('fo', [f(L1), f(L2), f(L3)]), ('foo', [f(L2), f(L1), f(None)]), ('b', [f(L3), f(L4), f(L1)]),
               ('main', [f(None), f(L1)]), ('baz', [f(L5), f(L4)]), ('bar_fo', [f(L4), f(L3)]), ('q', [f(L6), f(L1), f(L3)])]
    return img


def ref_image():
    img = imgs.image([('.iram0.text', [(L1, 'x.c.obj', '.text.fo', 0x20), (L3, 'sub/x.c.obj', '.text.b', 0x31)]),
                      ('.dram0.data', [(L1, 'x.c.obj', '.data.fod', 4)])])
    return imgs.autosyms(img)


REPORTS = ('archives', 'files', 'details', 'deps')


def opts(fmt, rep, names):
    o = expect.O(fmt=fmt, report=rep, abbrev=names != 'full', unify=names == 'unify')
    if rep == 'details':
        o.details = 'liba.a'
    return o


_unfiltered = {}


def rows(o, text, types, diff, reverse):
    """Ordered rows as printed (list of hashables), name first."""
    if o.report == 'deps':
        return [(n, s, tuple((a, b, tuple(c)) for a, b, c in d)) for n, s, d in depsref.read(o, text, reverse, False)]
    _, rs = reports.detail(o.fmt, text, types, diff)
    return [(n, v, tuple((t, c, tuple(s)) for t, c, s in g)) for n, v, g in rs]


def check(sc):
    pats, rep, names, fmt, diff, reverse = sc
    img = image()
    mp = family.put('cur', img, elf=True)
    rp, ref = None, None
    if diff:
        ref = ref_image()
        rp = family.put('ref', ref, elf=True)
    types = expect.types_of(img)
    o = opts(fmt, rep, names)
    extra = ['--dep-reverse'] if reverse else []
    key = (rep, names, fmt, diff, reverse)
    if key not in _unfiltered:
        r = expect.run(o, mp, rp, *extra)
        if r.rc:
            raise Violation(f'{sc}: {r}')
        _unfiltered[key] = r.out
    full = _unfiltered[key]
    o.filter = pats
    r = expect.run(o, mp, rp, *extra)
    if r.rc:
        raise Violation(f'{sc}: {r}')
    if fmt == 'dot':
        errs = depsref.check(o, r, img, reverse, False)
        if errs:
            raise Violation(f'{sc}: ' + '\n'.join(errs) + f'\n{r.out}')
        return r.out
    allrows = rows(o, full, types, diff, reverse)
    exp = [x for x in allrows if expect.matches(o, x[0])]
    got = rows(o, r.out, types, diff, reverse)
    if got != exp:
        raise Violation(f'{sc}: rows\n  {[x[0] for x in got]}\nexpected\n  {[x[0] for x in exp]}\n'
                        f'of\n  {[x[0] for x in allrows]}\n{r.out}')
    # and the content is right, not only consistent
    if rep == 'deps':
        errs = depsref.check(o, r, img, reverse, False)
        if errs:
            raise Violation(f'{sc}: ' + '\n'.join(errs))
    else:
        m = expect.expected_map(o, img, ref, True, True)
        errs = expect.check_output(o, r, m, img, ref)
        if errs:
            raise Violation(f'{sc}: ' + '\n'.join(errs))
    return r.out


def pattern_space(n, formats, names, reps=REPORTS, name='patterns', diffs=(False, True)):
    def build(c):
        pats = []
        for i in range(n):
            p = c.choose(f'pattern{i}', PATTERNS if i == 0 else (None,) + PATTERNS)
            if p is None:
                break
            pats.append(p)
        if len(set(pats)) != len(pats):
            raise Prune()
        rep = c.choose('report', reps)
        fmt = c.choose('format', formats)
        if fmt == 'dot' and rep != 'deps':
            raise Prune()
        diff = rep != 'deps' and c.choose('diff', diffs)
        reverse = rep == 'deps' and c.flag('reverse')
        return (tuple(pats), rep, c.choose('names', names), fmt, diff, reverse)
    return Space(name, build, check, bounds=f'all pattern lists of length <= {n} over {len(PATTERNS)} patterns x reports x '
                                            f'{formats} x {names} x diff')


def other_outputs():
    """Outputs which ignore filters: summary of every format, JSON/raw/tree of every report."""
    def build(c):
        p = c.choose('pattern', ('liba', 'nosuch', '*', '[!a]'))
        rep = c.choose('report', ('summary',) + REPORTS)
        fmt = c.choose('format', ('json2', 'raw', 'tree') + (('table', 'csv', 'text') if rep == 'summary' else ()))
        return (p, rep, fmt, c.choose('names', ('abbrev', 'full', 'unify')), rep != 'deps' and c.flag('diff'))

    def chk(sc):
        p, rep, fmt, names, diff = sc
        mp = family.put('cur', image(), elf=True)
        rp = family.put('ref', ref_image(), elf=True) if diff else None
        o = opts(fmt, rep, names)
        a = expect.run(o, mp, rp)
        o.filter = (p,)
        b = expect.run(o, mp, rp)
        if a.rc or (a.rc, a.out, a.err) != (b.rc, b.out, b.err):
            raise Violation(f'{sc}: filter changes an output it does not apply to\n{a}\n{b}')
        return a.out
    return Space('not-filtered', build, chk, bounds='4 patterns x all outputs that have no filtered rows')


def sort_space():
    """Filtered rows keep the requested order."""
    def build(c):
        return (c.choose('pattern', ('a', 'x', 'lib', 'o', '[!a].a')), c.choose('report', REPORTS[:3]),
                c.choose('sort', ('1', '2', '-1', 'Total Size', 'DRAM')), c.flag('ascending'), c.flag('diff'))

    def chk(sc):
        p, rep, sort, asc, diff = sc
        img = image()
        mp = family.put('cur', img, elf=True)
        rp = family.put('ref', ref_image(), elf=True) if diff else None
        o = opts('csv', rep, 'full')
        o.sort, o.asc = sort, asc
        types = expect.types_of(img)
        a = rows(o, expect.run(o, mp, rp).out, types, diff, False)
        o.filter = (p,)
        b = rows(o, expect.run(o, mp, rp).out, types, diff, False)
        if b != [x for x in a if expect.matches(o, x[0])]:
            raise Violation(f'{sc}: {[x[0] for x in b]} is not a sub-sequence of {[x[0] for x in a]}')
        return repr(b)
    return Space('sorted', build, chk, bounds='5 patterns x 3 reports x 5 sort columns x direction x diff')


def base_spaces(tier):
    if tier == 'quick':
        return [pattern_space(1, ('table', 'csv', 'dot'), ('abbrev', 'full', 'unify')),
                pattern_space(2, ('csv', 'dot'), ('full',), ('archives', 'details', 'deps'), 'pattern-pairs', (False,)),
                other_outputs(), sort_space()]
    return [pattern_space(1, ('table', 'csv', 'text', 'dot'), ('abbrev', 'full', 'unify')),
            pattern_space(2, ('table', 'csv', 'dot'), ('abbrev', 'full', 'unify'), name='pattern-pairs'),
            other_outputs(), sort_space()]


def spaces(tier):
    n = large.QUICK if tier == 'quick' else large.FULL
    return base_spaces(tier) + [large.space(('archives', 'files', 'details'), ('table', 'csv'), elfs=(True,), tweaks=({'filter': ('1',)}, {'filter': ('?7', '[3-4]0')}, {'filter': ('nosuch',)}), counts=n)]
