"""Reference semantics of the command line options and of every report, computed from the model only."""

from . import chips, model, reports, sut
from .core import Violation


class O:
    """Options of one command line."""
    F = {'fmt': 'table', 'report': 'summary', 'details': None, 'abbrev': True, 'unify': False, 'unused': False,
         'unchanged': False, 'flash': False, 'sort': None, 'sort_diff': False, 'asc': False, 'filter': ()}

    def __init__(self, **kw):
        for k, v in self.F.items():
            setattr(self, k, kw.pop(k, v))
        assert not kw, kw

    def __repr__(self):
        return 'O(' + ', '.join(f'{k}={getattr(self, k)!r}' for k, v in self.F.items() if getattr(self, k) != v) + ')'

    def argv(self, mp, ref=None):
        a = ['--format', self.fmt]
        if self.report in ('archives', 'files'):
            a.append('--' + self.report)
        elif self.report == 'details':
            a += ['--archive-details', self.details]
        elif self.report == 'deps':
            a.append('--archive-dependencies')
        for on, opt in ((not self.abbrev, '--no-abbrev'), (self.unify, '--unify'), (self.unused, '--show-unused'),
                        (self.unchanged, '--show-unchanged'), (self.flash, '--use-flash-size'),
                        (self.sort_diff, '--sort-diff'), (self.asc, '--sort-reverse')):
            if on:
                a.append(opt)
        if self.sort is not None:
            a += ['--sort', str(self.sort)]
        for f in self.filter:
            a += ['-F', f]
        if ref is not None:
            a += ['--diff', ref]
        return a + [mp]


def expected_map(o, img, ref=None, with_elf=False, ref_with_elf=False, **kw):
    load = o.report == 'details' or o.fmt == 'raw'
    m, _ = model.oracle(img, load, with_elf, **kw)
    r = model.oracle(ref, load, ref_with_elf)[0] if ref is not None else None
    res = []
    for x in (m, r):
        if x is None:
            continue
        if not o.unused:
            x = model.ref_remove_unused(x)
        if not o.flash:
            x = model.ref_ignore_flash(x)
        res.append(x)
    m = model.ref_diff(*res) if ref is not None else res[0]
    if o.unify:
        m = model.ref_unify(m)
    return m


def disp(o, full, info):
    return info['abbrev_name'] if o.abbrev or o.unify else full


def d(info, k='size'):
    return (info[k], info.get(k + '_diff', 0))


def visible(o, info, ref, k='size'):
    return ref is None or o.unchanged or info[k + '_diff'] != 0


# ---------------------------------------------------------------- expected reports


def summary(o, m, ref, trim=True):
    out = []
    for tn, t in m['memory_types'].items():
        if trim and not visible(o, t, ref, 'used'):
            continue
        size, sd = d(t)
        used, ud = d(t, 'used')
        rsize, rused = size - sd, used - ud

        def pct(v, vd):
            if not size:
                return None
            return (v / size * 100, v / size * 100 - ((v - vd) / rsize * 100 if rsize else 0))
        secs = [{'name': disp(o, sn, s), 'used': d(s), 'pct': pct(*d(s))} for sn, s in t['sections'].items()
                if not trim or visible(o, s, ref)]
        out.append({'name': tn, 'used': (used, ud), 'pct': pct(used, ud),
                    'remain': (size - used, (size - used) - (rsize - rused)) if size else None,
                    'total': (size, sd) if size else None, 'sections': secs})
    return out


def entries(o, m, ref):
    """{full name: {'display', 'size': (v, d), 'types': {type: ((v, d), {section: (display, (v, d))})}}}"""
    res = {}

    def add(key, display, tn, sn, info):
        e = res.setdefault(key, {'display': display, 'size': (0, 0), 'types': {
            t: [(0, 0), {s: [disp(o, s, si), (0, 0)] for s, si in ti['sections'].items()}]
            for t, ti in m['memory_types'].items()}})
        v = d(info)
        e['size'] = (e['size'][0] + v[0], e['size'][1] + v[1])
        t = e['types'][tn]
        t[0] = (t[0][0] + v[0], t[0][1] + v[1])
        c = t[1][sn]
        c[1] = (c[1][0] + v[0], c[1][1] + v[1])

    found = False
    for tn, t in m['memory_types'].items():
        for sn, s in t['sections'].items():
            for an, a in s['archives'].items():
                if o.report == 'archives':
                    add(an, disp(o, an, a), tn, sn, a)
                    continue
                if o.report == 'details' and a['abbrev_name'] != o.details:
                    continue
                for on, ob in a['object_files'].items():
                    if o.report == 'files':
                        key = ob['abbrev_name'] if o.unify else f'{an}:{on}'
                        add(key, ob['abbrev_name'] if o.abbrev or o.unify else key, tn, sn, ob)
                        continue
                    for yn, y in ob['symbols'].items():
                        found = True
                        key = y['abbrev_name'] if o.unify else f'{an}:{on}:{yn}'
                        add(key, yn if o.abbrev or o.unify else key, tn, sn, y)
    if o.report == 'details' and not found:
        return None
    if ref is not None and not o.unchanged:
        res = {k: e for k, e in res.items() if e['size'][1]}
    return res


def matches(o, name):
    if not o.filter:
        return True
    return any(glob_search(p, name) for p in o.filter)


def glob_search(pattern, name):
    """Some part of the name matches the wildcard pattern (own implementation, no fnmatch)."""
    toks, i = [], 0
    while i < len(pattern):
        ch = pattern[i]
        if ch == '*':
            toks.append(('*',))
        elif ch == '?':
            toks.append(('?',))
        elif ch == '[':
            j = i + 1
            if j < len(pattern) and pattern[j] == '!':
                j += 1
            if j < len(pattern) and pattern[j] == ']':
                j += 1
            while j < len(pattern) and pattern[j] != ']':
                j += 1
            if j >= len(pattern):
                toks.append(('c', '['))
            else:
                body = pattern[i + 1:j]
                neg = body.startswith('!')
                body = body[1:] if neg else body
                chars, k = set(), 0
                while k < len(body):
                    if k + 2 < len(body) and body[k + 1] == '-':
                        chars.update(chr(x) for x in range(ord(body[k]), ord(body[k + 2]) + 1))
                        k += 3
                    else:
                        chars.add(body[k])
                        k += 1
                toks.append(('s', neg, chars))
                i = j
        else:
            toks.append(('c', ch))
        i += 1

    def here(ti, pos):
        # set of end positions
        if ti == len(toks):
            return True
        t = toks[ti]
        if t[0] == '*':
            return any(here(ti + 1, p) for p in range(pos, len(name) + 1))
        if pos >= len(name):
            return False
        c = name[pos]
        ok = t[0] == '?' or (t[0] == 'c' and t[1] == c) or (t[0] == 's' and ((c in t[2]) != t[1]))
        return ok and here(ti + 1, pos + 1)
    return any(here(0, p) for p in range(len(name) + 1))


def tree(o, m, ref):
    def kids(level, infos, depth):
        out = []
        for n, i in infos.items():
            if depth == 1 and o.report == 'details' and i['abbrev_name'] != o.details:
                continue
            if not visible(o, i, ref):
                continue
            lv = model.LEVELS[depth + 1] if depth < 3 else None
            ch = kids(lv, i[lv], depth + 1) if lv else []
            if (o.report == 'archives' and depth == 1) or (o.report == 'files' and depth == 2):
                ch = []
            out.append((n if depth == 3 else disp(o, n, i), d(i), None, ch))
        return out
    return [(tn, d(t, 'used'), d(t) if t['size'] else None, kids('sections', t['sections'], 0))
            for tn, t in m['memory_types'].items() if visible(o, t, ref, 'used')]


def json_summary(o, m):
    lay = []
    for tn, t in m['memory_types'].items():
        parts = {}
        for sn, s in t['sections'].items():
            n = disp(o, sn, s)
            parts[n] = {'size': parts.get(n, {'size': 0})['size'] + s['size']}
        lay.append({'name': tn, 'total': t['size'], 'used': t['used'], 'free': t['size'] - t['used'] if t['size'] else 0,
                    'parts': parts})
    return lay


# ---------------------------------------------------------------- comparison


def close(a, b):
    return (a is None) == (b is None) and (a is None or all(abs(x - y) <= 0.00501 for x, y in zip(a, b)))


def canon_tree(nodes):
    return sorted((n, s, t if t else (), canon_tree(c)) for n, s, t, c in nodes)


def canon_detail(rows):
    return sorted((n, v, sorted((t, c, sorted(s)) for t, c, s in g)) for n, v, g in rows)


def exp_detail_rows(o, ents):
    rows = [(e['display'], e['size'], [(t, c[0], [(x[0], x[1]) for x in c[1].values()]) for t, c in e['types'].items()])
            for e in ents.values()]
    if o.fmt in ('table', 'text', 'csv'):
        rows = [r for r in rows if matches(o, r[0])]
    return rows


def types_of(*imgs):
    return {t[0] for i in imgs if i is not None for t in chips.CHIPS[i.target]}


def check_output(o, r, m, img, ref):
    """Compare one command result with the expected report. Returns a list of differences."""
    diff = ref is not None
    types = types_of(img, ref)
    errs = []
    if o.fmt == 'raw':
        got = reports.jsonv(r.out)
        return model.compare_maps(got, m)
    if o.fmt == 'tree':
        got, exp = canon_tree(reports.tree(r.out, diff)), canon_tree(tree(o, m, ref))
        if got != exp:
            errs.append(f'tree shows\n    {got}\n  expected\n    {exp}')
        return errs
    if o.report == 'summary':
        if o.fmt == 'json2':
            got = reports.jsonv(r.out)
            if got.get('total_size') != m['image_size']:
                errs.append(f'total_size is {got.get("total_size")!r}, expected {m["image_size"]}')

            def key(x):
                return x['name']
            g, e = sorted(got['layout'], key=key), sorted(json_summary(o, m), key=key)
            if g != e:
                errs.append(f'layout is\n    {g}\n  expected\n    {e}')
            return errs
        got, exp = reports.summary(o.fmt, r.out, types, diff), summary(o, m, ref)
        return errs + cmp_summary(got, exp) + (cmp_image(r, m, diff) if o.fmt in ('table', 'text') else [])
    ents = entries(o, m, ref)
    if ents is None:
        if not r.rc or r.out:
            errs.append(f'archive {o.details!r} is not part of the image, but: {r}')
        elif o.details not in r.err:
            errs.append(f'diagnostic does not name the archive: {r}')
        return errs
    if o.fmt == 'json2':
        got = reports.jsonv(r.out)
        if set(got) != set(ents):
            errs.append(f'entries are {sorted(got)}, expected {sorted(ents)}')
            return errs
        for k, e in ents.items():
            g = got[k]
            gv = (g['size'], g['size_diff'])
            gt = {t: [(ti['size'], ti['size_diff']), {s: [(si['abbrev_name'] if o.abbrev or o.unify else s),
                                                         (si['size'], si['size_diff'])]
                                                      for s, si in ti['sections'].items()}]
                  for t, ti in g['memory_types'].items()}
            if gv != e['size'] or gt != e['types']:
                errs.append(f'{k}: {gv} {gt}, expected {e["size"]} {e["types"]}')
            ab = k.rsplit('/', 1)[-1] if o.report == 'archives' else (e['display'] if o.abbrev or o.unify else None)
            if ab is not None and g['abbrev_name'] != ab:
                errs.append(f'{k}: abbrev_name {g["abbrev_name"]!r}, expected {ab!r}')
        return errs
    header, rows = reports.detail(o.fmt, r.out, types, diff)
    exp = exp_detail_rows(o, ents)
    g, e = canon_detail(rows), canon_detail(exp)
    if g != e:
        miss = [x for x in e if x not in g]
        extra = [x for x in g if x not in e]
        errs.append(f'rows differ, missing\n    {miss}\n  unexpected\n    {extra}')
    if o.report == 'details' and o.fmt in ('table', 'text'):
        # the title names the archive (it may be wrapped)
        title = reports.table(r.out)[0] or ''
        if ''.join(o.details.split()) not in ''.join(title.split()):
            errs.append(f'title {title!r} does not name {o.details!r}')
    return errs


def cmp_summary(got, exp):
    errs = []
    gn, en = sorted(t['name'] for t in got), sorted(t['name'] for t in exp)
    if gn != en:
        return [f'memory types are {gn}, expected {en}']
    for e in exp:
        g = next(t for t in got if t['name'] == e['name'])
        for k in ('used', 'remain', 'total'):
            if g[k] != e[k]:
                errs.append(f'{e["name"]}: {k} is {g[k]}, expected {e[k]}')
        if not close(g['pct'], e['pct']):
            errs.append(f'{e["name"]}: used % is {g["pct"]}, expected {e["pct"]}')
        gs = sorted(g['sections'], key=lambda s: (s['name'], s['used']))
        es = sorted(e['sections'], key=lambda s: (s['name'], s['used']))
        if [(s['name'], s['used']) for s in gs] != [(s['name'], s['used']) for s in es]:
            errs.append(f'{e["name"]}: sections are {[(s["name"], s["used"]) for s in gs]}, expected '
                        f'{[(s["name"], s["used"]) for s in es]}')
        elif not all(close(a['pct'], b['pct']) for a, b in zip(gs, es)):
            errs.append(f'{e["name"]}: section % are {[s["pct"] for s in gs]}, expected {[s["pct"] for s in es]}')
    return errs


def cmp_image(r, m, diff):
    got = reports.image_size(r.err, diff)
    exp = (m['image_size'], m.get('image_size_diff', 0))
    return [] if got == exp else [f'total image size line says {got}, expected {exp}']


def run(o, mp, refmp=None, *extra):
    r = sut.cli(*(list(extra) + o.argv(mp, refmp)))
    if r.exc is not None:
        raise Violation(f'unhandled exception for {o!r}: {r}')
    return r


def fail(o, r, errs, *imgs):
    txt = f'{o!r}\n  ' + '\n  '.join(errs[:10]) + f'\n--- command result\n{r!r}'
    for i in imgs:
        if i is not None:
            txt += f'\n--- map\n{model.render(i)}'
    raise Violation(txt[:9000])


def verify(o, mp, img, refmp=None, ref=None, with_elf=False, ref_with_elf=False):
    """Run the command and compare its report with the reference semantics."""
    m = expected_map(o, img, ref, with_elf, ref_with_elf)
    r = run(o, mp, refmp)
    dead = o.report == 'details' and o.fmt not in ('raw', 'tree') and entries(o, m, ref) is None
    if bool(r.rc) != dead:
        fail(o, r, [f'exit status {r.rc}'], img, ref)
    errs = check_output(o, r, m, img, ref)
    if errs:
        fail(o, r, errs, img, ref)
    return r, m
