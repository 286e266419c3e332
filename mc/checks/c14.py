"""C14: archive dependencies = cross-archive references of surviving symbols."""
import os

from .. import crefconf, depsref, expect, family, imgs, ldconf, model, sut
from ..core import Prune, Space, Violation

ASSUMPTIONS = ['one cross-reference entry per symbol, the first file listed is the definition (GNU ld --cref)']

A, B, A2 = depsref.LIBS
ENDS = (A, B, A2, None)
FORMATS = ('table', 'csv', 'tree', 'json2', 'raw', 'dot', 'text')


def args(o, reverse, syms):
    return (['--dep-reverse'] if reverse else []) + (['--dep-symbols'] if syms else [])


def run_all(img, modes, formats=FORMATS, elf_kw=None):
    mp = family.put('cur', img, elf=True, **(elf_kw or {}))
    out = []
    for fmt in formats:
        for names, reverse, syms in modes:
            o = expect.O(fmt=fmt, report='deps', abbrev=names != 'full', unify=names == 'unify')
            r = expect.run(o, mp, None, *args(o, reverse, syms))
            if r.rc:
                expect.fail(o, r, [f'exit status {r.rc}'], img)
            errs = depsref.check(o, r, img, reverse, syms)
            if errs:
                raise Violation(f'{o!r} reverse={reverse} symbols={syms}\n  ' + '\n  '.join(errs)
                                + f'\n{r!r}\ncrt: {img.crt}\nsymbols: {img.symbols}')
            out.append(r.out)
    return ''.join(out)


ALL_MODES = [(n, r, s) for n in ('abbrev', 'full', 'unify') for r in (False, True) for s in (False, True)]
FEW_MODES = [('full', False, True), ('abbrev', True, False), ('unify', False, False), ('full', True, True)]


def sym_choice(c, i, ends):
    """One cross-reference entry: definition, set of referencing files, fate of the symbol."""
    d = c.choose(f'def{i}', ends)
    refs = [e for e in ends if c.choose(f'ref{i}:{e}', (False, True))]
    fate = c.choose(f'fate{i}', ('func', 'object', 'gone', 'notype', 'abs', 'no size'))
    return d, refs, fate


def build_img(entries, archives=ENDS, order='def'):
    crt, symbols = [], []
    for i, (d, refs, fate) in enumerate(entries):
        n = f's{i}'
        crt.append((n, [depsref.ref(d, 'x.c.obj')] + [depsref.ref(x, 'y.c.obj') for x in refs]))
        if fate in ('func', 'object', 'notype'):
            symbols.append((n, fate, 1))
        elif fate == 'abs':
            symbols.append((n, 'func', 0xFFF1))
        elif fate == 'no size':
            symbols.append((n, 'func', 1, 0))
    if not crt:
        crt = [('zz', [depsref.ref(A)])]
    return depsref.project(crt, symbols, archives)


def one_symbol():
    """One symbol: every definition x every reference set x fate x all modes and formats."""
    def build(c):
        e = sym_choice(c, 0, ENDS)
        present = [x for x in ENDS if not c.choose(f'absent:{x}', (False, True))]
        return (tuple([e]), tuple(present))

    def chk(sc):
        es, present = sc
        if not present:
            return 'none'
        return run_all(build_img(es, present), FEW_MODES, ('table', 'json2', 'dot'))
    return Space('one-symbol', build, chk, bounds='1 symbol x 4 definitions x 16 reference sets x 6 fates x 16 sets of '
                                                  'contributing archives')


def graphs(nsym, ends, formats, modes, name, fates=('func', 'gone'), budget=None):
    def build(c):
        es = []
        for i in range(nsym):
            d = c.choose(f'def{i}', ends)
            refs = tuple(e for e in ends if c.choose(f'ref{i}:{e}', (False, True)))
            fate = c.choose(f'fate{i}', fates)
            es.append((d, refs, fate))
        if any(repr(a) > repr(b) for a, b in zip(es, es[1:])):
            raise Prune()
        return tuple(es)

    def chk(es):
        return run_all(build_img(es, tuple(dict.fromkeys(ends))), modes, formats)
    return Space(name, build, chk, budget=budget,
                 bounds=f'{nsym} symbols x {len(ends)} definitions x all reference sets x {len(fates)} fates')


def modes_space():
    """Selected graphs through every format and every option combination."""
    G = [
        (),
        ((A, (B,), 'func'),),
        ((A, (B, A2, None), 'func'), (B, (A,), 'object'), (A2, (A, A), 'func')),
        ((None, (A, B), 'func'), (A, (None,), 'func'), (B, (B,), 'func')),
        ((A, (A2,), 'func'), (A2, (A,), 'func'), (B, (A2, A), 'object'), (B, (A,), 'gone')),
        ((A, (B,), 'func'), (A, (B,), 'object'), (A, (B, A2), 'func'), (A, (B,), 'abs')),
    ]

    def build(c):
        return c.choose('graph', G), c.choose('mode', ALL_MODES), c.choose('format', FORMATS)

    def chk(sc):
        es, mode, fmt = sc
        return run_all(build_img(es), [mode], (fmt,))
    return Space('modes', build, chk, bounds='6 graphs x 12 option combinations x 7 formats')


def errors_space():
    """Missing ELF / missing cross reference table / diff given / DOT without dependencies."""
    def build(c):
        return (c.choose('format', FORMATS), c.choose('elf', ('present', 'absent', 'corrupt', 'no description')),
                c.flag('no cross reference table'), c.flag('diff'), c.flag('reverse'), c.flag('output file'))

    def chk(sc):
        fmt, elf, nocrt, diff, reverse, ofile = sc
        img = build_img(((A, (B,), 'func'), (B, (None, A2), 'object')))
        if nocrt:
            img.crt = []
        kw = {}
        if elf == 'corrupt':
            kw['elf_bytes'] = b'\x7fELF garbage'
        mp = family.put('cur', img, elf=elf in ('present', 'corrupt', 'no description'), **kw)
        if elf == 'no description':
            os.unlink(os.path.join(os.path.dirname(mp), 'project_description.json'))
        o = expect.O(fmt=fmt, report='deps')
        extra = ['--dep-reverse'] if reverse else []
        if diff:
            extra += ['--diff', family.put('ref', build_img(((B, (A,), 'func'),)))]
        of = os.path.join(sut.WDIR, 'deps.out')
        if os.path.exists(of):
            os.unlink(of)
        if ofile:
            extra += ['-o', of]
        r = expect.run(o, mp, None, *extra)
        if elf == 'present' and not nocrt:
            if r.rc:
                raise Violation(f'{sc}: exit status {r.rc}: {r}')
            if ofile:
                r.out = open(of).read()
            errs = depsref.check(o, r, img, reverse, False)
            if diff and 'ignored' not in r.err:
                errs.append('no warning that --diff is ignored')
            if not diff and 'ignored' in r.err:
                errs.append('warning about --diff')
            if errs:
                raise Violation(f'{sc}: ' + '\n'.join(errs) + f'\n{r!r}')
        elif not r.rc or not r.err.strip() or r.out.strip() or os.path.exists(of):
            raise Violation(f'{sc}: must end with an error and no report: {r!r}')
        return (r.rc, r.out)
    return Space('errors', build, chk, bounds='7 formats x ELF state x table presence x diff x reverse x output file')


PATHS = ('liba.a', 'p/liba.a', '/q/liba.a', 'libb.a', 'p/libb.a', 'xliba.a', 'p/LIBA.a', 'p/liba', None)


def paths_space():
    """All ordered triples of archive names that may be confused with each other, any sizes."""
    def build(c):
        ps = tuple(c.choose(f'archive{i}', PATHS) for i in range(3))
        if len(set(ps)) != 3:
            raise Prune()
        return ps, c.choose('size', (0x100, 1))

    def chk(sc):
        (a, b, d), size = sc
        crt = [('s0', [depsref.ref(a), depsref.ref(b)]), ('s1', [depsref.ref(d), depsref.ref(b)]), ('s2', [depsref.ref(b), depsref.ref(d)])]
        img = imgs.image([('.iram0.text', [(x, 'x.c.obj', f'.text.{i}', size + i) for i, x in enumerate((a, b, d))])])
        img.symbols = [{'name': f's{i}', 'addr': 0x40080000, 'size': 1, 'type': 'func', 'shndx': 1} for i in range(3)]
        img.crt = crt
        return run_all(img, FEW_MODES, ('json2', 'csv', 'dot'))
    return Space('paths', build, chk, bounds='ordered triples of 9 similar archive names x 2 sizes x 4 option sets x 3 formats')


def large_space():
    """Many symbols between two archives, many archives."""
    def build(c):
        return (c.choose('symbols', (1, 9, 101, 257)), c.choose('archives', (2, 11, 101)), c.choose('format', FORMATS), c.choose('mode', FEW_MODES))

    def chk(sc):
        ns, na, fmt, mode = sc
        archs = [f'esp-idf/c{i}/libc{i}.a' for i in range(na)]
        es = [(archs[0], (archs[1],), 'func') for _ in range(ns)] + [(archs[0], (x,), 'object') for x in archs[2:]]
        es += [(x, (archs[0],), 'object') for x in archs[2:]] + [(archs[0], tuple(archs[1:]), 'func'), (archs[-1], tuple(archs[:-1]), 'object')]
        return run_all(build_img(es, tuple(archs)), [mode], (fmt,))
    return Space('large', build, chk, bounds='up to 257 symbols per edge and 101 archives x 7 formats x 4 option sets')


# renderings of cross-reference files
REFS = ('esp-idf/a/liba.a(x.c.obj)', '/x (1)/liba.a(x.c.obj)', 'C:/Program Files (x86)/lib a.a(x y.o)',
        'CMakeFiles/app.dir/main.c.obj', 'a dir/main.c.obj', '/opt/other/liba.a(x.c.obj)')
SYMS = ('f', 'a_very_long_symbol_name_that_is_longer_than_the_column_of_the_cross_reference_table', '_ZN1aC1Ev', 'Symbol',
        'x$y', 'Cross', '.L1')


def parse_space():
    """Cross-reference table text: file forms, long symbols, many references, blank line and text at the end."""
    def build(c):
        return (c.choose('def', REFS), c.choose('ref', REFS), c.choose('symbol', SYMS), c.flag('second'),
                c.choose('tail', ('', '\n\nsome text\n')), c.choose('reverse', (False, True)))

    def chk(sc):
        d, rf, sym, second, tail, reverse = sc
        archs = []
        for f in dict.fromkeys((d, rf, 'esp-idf/z/libz.a(z.o)')):
            a = depsref.arch(f)
            archs.append(None if a == '(exe)' else a)
        archs = list(dict.fromkeys(archs))
        crt = [(sym, [d, rf] + (['esp-idf/z/libz.a(z.o)', rf] if second else []))]
        crt.append(('other', ['esp-idf/z/libz.a(z.o)', d]))
        img = depsref.project(crt, [(sym, 'func', 1), ('other', 'object', 1)], archs)
        mp = family.put('cur', img, elf=True, text=model.render(img) + tail)
        out = ''
        for fmt in ('json2', 'csv', 'dot'):
            o = expect.O(fmt=fmt, report='deps', abbrev=False)
            r = expect.run(o, mp, None, '--dep-symbols', *(['--dep-reverse'] if reverse else []))
            errs = [f'exit {r.rc}'] if r.rc else depsref.check(o, r, img, reverse, True)
            if errs:
                raise Violation(f'{sc} {fmt}: ' + '\n'.join(errs) + f'\n{r!r}\n{model.render(img)}')
            out += r.out
        return out
    return Space('parse', build, chk, bounds='6x6 file forms x 7 symbol forms x reference counts x tail x direction')


NAMES = ('f', 'f.isra.0', 'f.part.0', 'f.1234', 'F', '_f', '__wrap_f', '_ZN1a1bEv', 'x$y', 'f_0', 'f@V1')


def names_space():
    """Three symbols with names that may be confused with each other, defined and referenced anywhere, dead or alive."""
    def build(c):
        ns = tuple(c.choose(f'name {i}', NAMES) for i in range(3))
        if len(set(ns)) != 3:
            raise Prune()
        return ns, c.choose('direction', ('same', 'mixed')), c.choose('third', ('func', 'gone'))

    def chk(sc):
        (x, y, z), direction, third = sc
        a, b = depsref.ref(A), depsref.ref(B)
        crt = [(x, [a, b]), (y, [a, b] if direction == 'same' else [b, a]), (z, [a, b])]
        img = depsref.project(crt, [(x, 'func', 1), (y, 'object', 1)] + ([(z, 'func', 1)] if third == 'func' else []), (A, B))
        return run_all(img, [('full', False, True)], ('json2', 'csv', 'dot', 'raw', 'tree'))
    return Space('symbol-names', build, chk, bounds='ordered triples of 11 similar symbol names x direction x fate x 5 formats')


def spaces(tier):
    real = [crefconf.space(crefconf.check_deps, 2 if tier == 'quick' else 3, False)] if ldconf.available() else []
    if tier == 'quick':
        return real + [one_symbol(), graphs(2, (A, B, None), ('json2', 'table'), FEW_MODES[:2], 'graphs'), modes_space(),
                errors_space(), parse_space(), paths_space(), large_space(), names_space()]
    return real + [one_symbol(), graphs(2, ENDS, ('json2', 'table', 'dot'), FEW_MODES, 'graphs', budget=8),
            graphs(3, (A, B, A2), ('json2', 'csv'), FEW_MODES[:2], 'graphs-3', fates=('func',), budget=7),
            modes_space(), errors_space(), parse_space(), paths_space(), large_space(), names_space()]
