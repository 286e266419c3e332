"""C11: sorting. All columns (numbers and names) x orders of values x reports x formats."""
import itertools

from .. import chips, expect, family, imgs, large, reports
from ..core import Space, Violation
from . import c10

ASSUMPTIONS = ['rows with equal keys may come in any order; rows whose cell is empty (unknown total) are not ordered']

VALS = sorted(set(itertools.permutations((9, 10, 100, 10))))
VALS3 = sorted(set(itertools.permutations((9, 10, 100))))


def monotone(keys, asc):
    ks = [k for k in keys if k is not None]
    return all((a <= b) if asc else (a >= b) for a, b in zip(ks, ks[1:]))


def need(cond, o, r, what):
    if not cond:
        raise Violation(f'{o!r}: {what}\n{r!r}'[:7000])


def exact_pct(used, total):
    if used is None or total is None:
        return None
    (u, ud), (t, td) = used, total
    p = u / t
    rt = t - td
    return (round(p, 12), round(p - ((u - ud) / rt if rt else 0), 12))


def order_summary(o, r, types, diff, col):
    rows = reports.summary(o.fmt, r.out, types, diff)
    k = 1 if o.sort_diff else 0
    key = ('used', 'pct', 'remain', 'total')[col - 1]

    def tkey(t):
        v = exact_pct(t['used'], t['total']) if key == 'pct' else t[key]
        return v[k] if v is not None else None
    need(monotone([tkey(t) for t in rows], o.asc), o, r, f'memory types are not ordered by {key}')
    for t in rows:
        if key in ('used', 'pct'):
            ks = [(exact_pct(s['used'], t['total']) if key == 'pct' else s['used']) for s in t['sections']]
            need(monotone([x[k] if x is not None else None for x in ks], o.asc), o, r,
                 f'sections of {t["name"]} are not ordered by {key}')


def order_detail(o, r, types, diff, col):
    header, rows = reports.detail(o.fmt, r.out, types, diff)
    k = 1 if o.sort_diff else 0
    cols = [[v] + [x for t, c, ss in g for x in [c] + [s[1] for s in ss]] for _, v, g in rows]
    need(monotone([c[col - 1][k] for c in cols], o.asc), o, r, f'rows are not ordered by column {col} {header[col]!r}')


def order_tree(o, r, diff):
    k = 1 if o.sort_diff else 0

    def rec(nodes, path):
        need(monotone([n[1][k] for n in nodes], o.asc), o, r, f'entries below {path!r} are not ordered')
        for n in nodes:
            rec(n[3], path + '/' + n[0])
    rec(reports.tree(r.out, diff), '')


def order_json(o, r):
    k = 'size_diff' if o.sort_diff else 'size'
    got = reports.jsonv(r.out)
    if o.report == 'summary':
        if not o.sort_diff:
            need(monotone([t['used'] for t in got['layout']], o.asc), o, r, 'layout is not ordered by used')
            for t in got['layout']:
                need(monotone([p['size'] for p in t['parts'].values()], o.asc), o, r, f'parts of {t["name"]} not ordered')
        return
    need(monotone([e[k] for e in got.values()], o.asc), o, r, 'entries are not ordered')
    for n, e in got.items():
        need(monotone([t[k] for t in e['memory_types'].values()], o.asc), o, r, f'memory types of {n} are not ordered')
        for tn, t in e['memory_types'].items():
            need(monotone([s[k] for s in t['sections'].values()], o.asc), o, r, f'sections of {n} {tn} are not ordered')


def json_diff_order(o, r, m):
    """JSON summary has no differences: check the order against the expected map."""
    got = reports.jsonv(r.out)
    types = m['memory_types']
    need(monotone([types[t['name']]['used_diff'] for t in got['layout']], o.asc), o, r, 'layout not ordered by diff')
    for t in got['layout']:
        dd = {}
        for sn, s in types[t['name']]['sections'].items():
            n = expect.disp(o, sn, s)
            dd[n] = dd.get(n, 0) + s['size_diff']
        need(monotone([dd[n] for n in t['parts']], o.asc), o, r, f'parts of {t["name"]} not ordered by diff')


# number of columns without the description
def width(o, m):
    if o.report == 'summary':
        return 4
    return 1 + sum(1 + len(t['sections']) for t in m['memory_types'].values())


def project(vals, report):
    """Four archives/files/symbols and four sections whose sizes are in the given order."""
    a, b, c, d = (vals + (17,))[:4]
    if report == 'summary':
        cont = [('.iram0.vectors', [(family.A1, 'x.o', '.text.v', a)]), ('.iram0.text', [(family.A1, 'x.o', '.text.t', b)]),
                ('.iram1.text', [(family.A1, 'x.o', '.text.t', d)]),
                ('.dram0.data', [(family.A1, 'x.o', '.data.d', c)]), ('.dram0.bss', [(family.B, 'x.o', '.bss.d', a)]),
                ('.flash.text', [(family.A1, 'x.o', '.text.u', d)]), ('.flash.rodata', [(family.B, 'x.o', '.rodata.u', b)]),
                ('.flash.appdesc', [(family.B, 'x.o', '.rodata.v', c)]), ('.flash.tls', [(family.A1, 'x.o', '.rodata.w', a)]),
                ('.rtc.data', [(family.A1, 'x.o', '.rtc.data.u', 15)])]
    else:
        names = [(f'esp-idf/{n}/lib{n}.a', f'{n}.c.obj') for n in 'pqrs']
        if report == 'details':
            names = [('esp-idf/a/liba.a', 'x.c.obj')] * 4
        cont = [('.iram0.text', [(*names[i], f'.text.f{i}', v) for i, v in enumerate((a, b, c))]),
                ('.flash.text', [(*names[i], f'.text.f{i}', v) for i, v in enumerate((c, a, d, b))]),
                # the order in the last column is not the one of the totals
                ('.flash.rodata', [(*names[i], f'.rodata.f{i}', v) for i, v in enumerate((5, 3, 4, 6))])]
    return imgs.image(cont, regions=REG)


# totals chosen so that the order of the percentages is not the order of the used bytes
REG = [(n, o, {'iram0_0_seg': 10000, 'dram0_0_seg': 1000, 'rtc_slow_seg': 4000}.get(n, ln), a)
       for n, o, ln, a in chips.REGIONS['esp32'] if n in ('iram0_0_seg', 'dram0_0_seg', 'rtc_slow_seg', 'iram0_2_seg',
                                                         'drom0_0_seg')]


class Case:
    def __init__(self, report, vals, rvals, names, asc, sort_diff):
        self.report, self.vals, self.rvals, self.names = report, vals, rvals, names
        self.asc, self.sort_diff = asc, sort_diff

    def __repr__(self):
        return f'{self.report} {self.vals} ref={self.rvals} {self.names} asc={self.asc} sort_diff={self.sort_diff}'


REPORTS = ('summary', 'archives', 'files', 'details')


def opts_of(case, fmt):
    o = expect.O(fmt=fmt, report=case.report, asc=case.asc, sort_diff=case.sort_diff,
                 abbrev=case.names != 'full', unify=case.names == 'unify')
    if case.report == 'details':
        o.details = 'liba.a'
    o.unused = case.names == 'abbrev'
    return o


def check(case):
    img = project(case.vals, case.report)
    ref = project(case.rvals, case.report) if case.rvals else None
    mp = family.put('cur', img)
    rp = family.put('ref', ref) if ref else None
    types = expect.types_of(img)
    diff = ref is not None
    out = ''
    for fmt in ('table', 'csv'):
        o = opts_of(case, fmt)
        m = expect.expected_map(o, img, ref)
        w = width(o, m)
        base = expect.run(o, mp, rp)
        if o.report == 'summary':
            header = reports.SUMMARY_HEADER
        else:
            header, _ = reports.detail(fmt, base.out, types, diff)
        if len(header) != w + 1:
            raise Violation(f'{o!r}: {len(header)} columns, expected {w + 1}: {header}')
        cols = [(None, 1)] + [(i, i) for i in range(1, w + 1)] + [(-i, w + 1 - i) for i in range(1, w + 1)]
        cols += [(h, header.index(h)) for h in dict.fromkeys(header[1:])]
        if fmt == 'csv':
            cols = cols[1::2] + cols[-1:]
        for spec, idx in cols:
            o.sort = spec
            r, _ = expect.verify(o, mp, img, rp, ref)
            (order_summary if o.report == 'summary' else order_detail)(o, r, types, diff, idx)
            out += r.out
        for bad in (0, w + 1, w + 5, -(w + 1), -(w + 7), 'nosuch', '', header[0], header[1] + 'x', '1.5', header[1].lower(), header[1][:-1], header[1][1:],
                    header[-1][:-1], ' ' + header[1], header[1] + ' '):
            o.sort = bad
            r = expect.run(o, mp, rp)
            need(r.rc != 0 and not r.out.strip() and r.err.strip(), o, r, f'invalid sort column {bad!r} is not rejected')
    for fmt in ('json2', 'tree'):
        o = opts_of(case, fmt)
        r, m = expect.verify(o, mp, img, rp, ref)
        if fmt == 'tree':
            order_tree(o, r, diff)
        elif o.report == 'summary' and o.sort_diff and diff:
            json_diff_order(o, r, m)
        else:
            order_json(o, r)
        out += r.out
    return out


def order_space(vals, rvals, name='orders', budget=None):
    def build(c):
        rep = c.choose('report', REPORTS)
        v = c.choose('values', vals)
        rv = c.choose('reference', (None, v) + tuple(rvals))
        return Case(rep, v, rv, c.choose('names', ('full', 'abbrev', 'unify')), c.flag('ascending'),
                    c.flag('sort-diff') if rv else False)
    return Space(name, build, check, budget=budget,
                 bounds=f'{len(vals)} value orders x {len(rvals)} reference orders x reports x all columns by number, '
                        f'negative number and name, 16 invalid columns, x formats x names x direction x diff')


def tree_space(budget):
    def build(c):
        cur = family.pick(c)
        diff = c.flag('diff')
        ref = family.pick(c, 'ref') if diff else None
        rep = c.choose('report', (None,) + c10.REPORTS[:3])
        return (cur, ref, rep, c.flag('ascending'), c.flag('sort-diff') if diff else False,
                c.choose('names', ('full', 'abbrev', 'unify')))

    def chk(sc):
        cur, ref, rep, asc, sd, nm = sc
        img = family.make(cur)
        rimg = family.make(ref) if ref else None
        mp = family.put('cur', img)
        rp = family.put('ref', rimg) if rimg else None
        out = ''
        for fmt in ('tree', 'json2', 'table'):
            o = expect.O(fmt=fmt, asc=asc, sort_diff=sd, abbrev=nm != 'full', unify=nm == 'unify', unchanged=True)
            if rep:
                c10.set_report(o, rep)
            r, m = expect.verify(o, mp, img, rp, rimg)
            if r.rc:
                continue
            if fmt == 'tree':
                order_tree(o, r, rimg is not None)
            elif fmt == 'table':
                (order_summary if not rep else order_detail)(o, r, expect.types_of(img), rimg is not None, 1)
            elif not rep and sd:
                json_diff_order(o, r, m)
            else:
                order_json(o, r)
            out += r.out
        return out
    return Space('nested', build, chk, budget=budget, bounds=f'family projects, <= {budget} deviations, order at every '
                                                             f'level of tree, JSON and table')


def base_spaces(tier):
    if tier == 'quick':
        return [order_space([VALS[i] for i in (0, 4, 7, 11)], VALS3[3:4]), tree_space(2)]
    return [order_space(VALS, VALS3), tree_space(3)]

LARGE = ({}, {'asc': True}, {'sort': 2}, {'sort': 3, 'asc': True}, {'sort': -1}, {'sort_diff': True}, {'sort': 2, 'sort_diff': True})


def order(o, r, m, img, ref):
    """The order of the rows of a (large) report."""
    if o.fmt in ('table', 'csv'):
        types = expect.types_of(img)
        w = width(o, m)
        col = 1 if o.sort is None else o.sort if o.sort > 0 else w + 1 + o.sort
        (order_summary if o.report == 'summary' else order_detail)(o, r, types, ref is not None, col)
    elif o.fmt == 'tree':
        order_tree(o, r, ref is not None)
    elif o.report == 'summary' and o.sort_diff and ref is not None:
        json_diff_order(o, r, m)
    else:
        order_json(o, r)



def spaces(tier):
    n = large.QUICK if tier == 'quick' else large.FULL
    return base_spaces(tier) + [large.space(('summary', 'archives', 'files', 'details'), ('table', 'csv', 'json2', 'tree'), names=('full',), tweaks=LARGE, counts=n, after=order)]
