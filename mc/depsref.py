"""Reference model of the archive dependency reports and their readers."""
import os

from . import expect, imgs, model, reports
from .core import Violation

LIBS = ('esp-idf/a/liba.a', 'esp-idf/b/libb.a', '/opt/other/liba.a')


def ref(archive, obj='x.c.obj'):
    return model.fileref(archive, obj)


def arch(fileref):
    """'esp-idf/a/liba.a(x.o)' -> archive path, plain object -> '(exe)'"""
    if fileref.endswith(')') and '(' in fileref:
        return fileref[:fileref.rindex('(')]
    return '(exe)'


def graph(img, o, reverse=False, abs_ok=False):
    """{archive: {'display', 'size', 'archives': {archive: {'display', 'size', 'symbols': [..]}}}} as it should be."""
    oo = expect.O(fmt='json2', report='archives', unify=o.unify, unused=o.unused)
    m = expect.expected_map(oo, img, None, True)
    sizes = {k: e['size'][0] for k, e in expect.entries(oo, m, None).items()}
    alive = {s['name'] for s in img.symbols if s['type'] in ('func', 'object') and (s.get('shndx', 1) != 0xFFF1)}

    def nm(f):
        a = arch(f)
        return os.path.basename(a) if o.unify else a

    def dsp(a):
        return os.path.basename(a) if o.abbrev or o.unify else a
    edges = {}
    for sym, refs in img.crt:
        if sym not in alive:
            continue
        dst = nm(refs[0])
        if dst not in sizes:
            continue
        for f in refs[1:]:
            src = nm(f)
            if src != dst and src in sizes:
                edges.setdefault((src, dst), []).append(sym) if sym not in edges.get((src, dst), []) else None
    res = {}
    for (src, dst), syms in edges.items():
        a, b = (dst, src) if reverse else (src, dst)
        e = res.setdefault(a, {'display': dsp(a), 'size': sizes[a], 'archives': {}})
        e['archives'][b] = {'display': dsp(b), 'size': sizes[b], 'symbols': sorted(syms)}
    return res, edges, sizes


def canon(g, syms):
    return sorted((e['display'], e['size'], sorted((x['display'], x['size'], x['symbols'] if syms else [])
                                                   for x in e['archives'].values())) for e in g.values())


def read_rows(header, rows, reverse, syms, seps):
    want = ['Archive', 'Archive Size'] + (['Dependents', 'Dependents Sizes'] if reverse
                                          else ['Dependencies', 'Dependencies Sizes']) + (['Symbols'] if syms else [])
    if header != want:
        raise Violation(f'dependency table header is {header!r}, expected {want!r}')
    out = []
    for r in rows:
        if r is None:
            continue
        if r[0].strip():
            out.append((r[0].strip(), int(r[1]), []))
        if r[2].strip():
            out[-1][2].append([r[2].strip(), int(r[3]), []])
        if syms and r[4].strip():
            out[-1][2][-1][2].extend(x.strip() for x in r[4].split('\n'))
    return out


def canon_rows(out):
    return sorted((n, s, sorted((a, b, sorted(c)) for a, b, c in deps)) for n, s, deps in out)


def read(o, text, reverse, syms):
    """Report text -> ordered list [(archive display, size, [[dep display, size, symbols]])]"""
    if o.fmt in ('table', 'text'):
        title, header, rows = reports.table(text)
        return read_rows(header, rows, reverse, syms, True)
    if o.fmt == 'csv':
        header, rows = reports.csv_table(text)
        return read_rows(header, rows, reverse, syms, False)
    if o.fmt == 'tree':
        root, nodes = reports.raw_tree(text)
        if ('reverse' in root) != reverse:
            raise Violation(f'tree is called {root!r}')

        def lab(x):
            n, s = x.rsplit(' ', 1)
            return n, int(s)
        out = []
        for n, ch in nodes:
            deps = []
            for dn, sub in ch:
                if sub and not syms:
                    raise Violation(f'symbols shown without being asked for:\n{text}')
                deps.append([*lab(dn), [s[0] for s in sub]])
            out.append((*lab(n), deps))
        return out
    raise AssertionError(o.fmt)


def check(o, r, img, reverse, syms):
    """Compare one dependency report with the reference graph; returns list of differences."""
    g, edges, sizes = graph(img, o, reverse)
    if o.fmt in ('json2', 'raw'):
        got = reports.jsonv(r.out)
        exp = {a: {'abbrev_name': os.path.basename(a), 'size': e['size'], 'archives': {
            b: {'abbrev_name': os.path.basename(b), 'size': x['size'], 'symbols': x['symbols']}
            for b, x in e['archives'].items()}} for a, e in g.items()}
        got2 = {a: {**e, 'archives': {b: {**x, 'symbols': sorted(x['symbols'])} for b, x in e['archives'].items()}}
                for a, e in got.items()}
        return [] if got2 == exp else [f'graph is\n    {got2}\n  expected\n    {exp}']
    flt = {a: e for a, e in g.items() if expect.matches(o, e['display'])}
    if o.fmt == 'dot':
        nodes, ed = reports.dot(r.out)
        exp_e = {}
        for a, e in flt.items():
            for b, x in e['archives'].items():
                exp_e[(b, a) if reverse else (a, b)] = x['symbols'] if syms else []
        got_e = {k: sorted(v['label'].split('\n')) if 'label' in v else [] for k, v in ed.items()}
        errs = []
        if got_e != exp_e:
            errs.append(f'edges are\n    {got_e}\n  expected\n    {exp_e}')
        exp_n = {}
        for a, e in flt.items():
            exp_n[a] = f'{e["display"]} ({e["size"]})'
            for b, x in e['archives'].items():
                exp_n[b] = f'{x["display"]} ({x["size"]})'
        got_n = {k: v.get('label') for k, v in nodes.items()}
        if got_n != exp_n:
            errs.append(f'nodes are\n    {got_n}\n  expected\n    {exp_n}')
        return errs
    src = g if o.fmt == 'tree' else flt
    got, exp = canon_rows(read(o, r.out, reverse, syms)), canon(src, syms)
    return [] if got == exp else [f'report shows\n    {got}\n  expected\n    {exp}']


def project(crt, symbols, archives, extra=()):
    """Image where every archive contributes something, with the given cross-reference table and ELF symbols.

    symbols: [(name, type, shndx)]; symbols are laid out in the last section, after all others.
    """
    items = [(a, 'x.c.obj', f'.text.{i}', 0x100 + 16 * i) for i, a in enumerate(archives)]
    data = [(a, 'x.c.obj', f'.data.{i}', 0x10 + i) for i, a in enumerate(archives)][::-1]
    img = imgs.image([('.iram0.text', items + list(extra)), ('.dram0.data', data)])
    base = 0x3FFB0000
    img.symbols = [{'name': n, 'addr': base, 'size': z[0] if z else 4, 'type': t, 'shndx': x} for n, t, x, *z in symbols]
    img.crt = list(crt)
    return img
