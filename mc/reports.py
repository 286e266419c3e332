"""Parsers of the report formats into plain values.  They read only what a user reads: the printed text."""
import csv
import io
import json
import re

from .core import Violation


def num(s):
    return float(s) if '.' in s or 'e' in s or 'inf' in s or 'nan' in s else int(s)


def value(cell, diff):
    """'12' -> (12, 0);  '12   +3' -> (12, 3);  '' -> None"""
    parts = cell.split()
    if not parts:
        return None
    if len(parts) != (2 if diff else 1):
        raise Violation(f'cell {cell!r} does not hold {"value and difference" if diff else "one value"}')
    try:
        vals = [num(p) for p in parts]
    except ValueError:
        raise Violation(f'cell {cell!r} is not numeric')
    return (vals[0], vals[1] if diff else 0)


def table(text):
    """-> (title, header cells, rows); a row ends where the next begins; cells keep their leading spaces."""
    title, header, rows = None, None, []
    for line in text.split('\n'):
        if line.startswith('┃'):
            cells = [c[1:-1].strip() for c in line[1:-1].split('┃')]
            header = cells if header is None else [h + c for h, c in zip(header, cells)]
        elif line.startswith('│'):
            cells = [c[1:-1].rstrip() for c in line[1:-1].split('│')]
            rows.append(cells)
        elif line.startswith(('┏', '┡', '└', '├', '┌', '╇')):
            rows.append(None) if line.startswith('├') else None
        elif line.strip():
            if title is not None or header is not None:
                raise Violation(f'unexpected line {line!r} in a table report:\n{text}')
            title = line.strip()
    if header is None:
        raise Violation(f'no table in the output:\n{text}')
    for r in rows:
        if r is not None and len(r) != len(header):
            raise Violation(f'table row {r!r} has not one cell per column {header!r}')
    return title, header, rows


def csv_table(text):
    try:
        rows = list(csv.reader(io.StringIO(text), strict=True))
    except csv.Error as e:
        raise Violation(f'not CSV ({e}):\n{text}')
    if not rows:
        raise Violation('empty CSV output')
    for r in rows:
        if len(r) != len(rows[0]):
            raise Violation(f'CSV row {r!r} has {len(r)} cells, header has {len(rows[0])}:\n{text}')
    return rows[0], rows[1:]


def rows_of(fmt, text):
    if fmt == 'csv':
        return csv_table(text)
    _, header, rows = table(text)
    return header, [r for r in rows if r is not None]


SUMMARY_HEADER = ['Memory Type/Section', 'Used [bytes]', 'Used [%]', 'Remain [bytes]', 'Total [bytes]']


def summary(fmt, text, types, diff):
    """Summary of table/text/csv -> [{'name','used','pct','remain','total','sections':[{'name','used','pct'}]}]"""
    header, rows = rows_of(fmt, text)
    if header != SUMMARY_HEADER:
        raise Violation(f'unexpected summary header {header!r}')
    res = []
    for r in rows:
        name = r[0].strip()
        vals = [value(c, diff) for c in r[1:]]
        if name in types and not r[0].startswith(' '):
            res.append({'name': name, 'used': vals[0], 'pct': vals[1], 'remain': vals[2], 'total': vals[3],
                        'sections': []})
        else:
            if not res:
                raise Violation(f'section row {r!r} outside of a memory type')
            if vals[2] is not None or vals[3] is not None:
                raise Violation(f'section row {r!r} has remain/total')
            res[-1]['sections'].append({'name': name, 'used': vals[0], 'pct': vals[1]})
    return res


def detail(fmt, text, types, diff):
    """Archive/file/symbol report -> [(name, total, [(type, cell, [(section, cell)])])], one entry per row."""
    header, rows = rows_of(fmt, text)
    if header[1:2] != ['Total Size']:
        raise Violation(f'unexpected header {header!r}')
    res = []
    for r in rows:
        vals = [value(c, diff) for c in r[1:]]
        groups = []
        for h, v in zip(header[2:], vals[1:]):
            if h in types:
                groups.append((h, v, []))
            elif not groups:
                raise Violation(f'section column {h!r} before any memory type column')
            else:
                groups[-1][2].append((h, v))
        res.append((r[0], vals[0], groups))
    return header, res


def jsonv(text):
    try:
        return json.loads(text, object_pairs_hook=_nodup)
    except ValueError as e:
        raise Violation(f'not one JSON document ({e}):\n{text[:2000]}')


def _nodup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise Violation(f'duplicate keys in JSON output: {[k for k, _ in pairs]!r}')
    return d


GUIDE = re.compile(r'^((?:│   |    |├── |└── )*)(.*)$', re.S)


def raw_tree(text):
    """-> (root label, [[label, children], ...])"""
    lines = [ln for ln in text.split('\n') if ln.strip()]
    if not lines:
        raise Violation('no tree in the output')
    root = [lines[0].rstrip(), []]
    stack = [root]
    for ln in lines[1:]:
        m = GUIDE.match(ln)
        depth = len(m.group(1)) // 4
        if not depth or depth > len(stack):
            raise Violation(f'malformed tree line {ln!r}:\n{text}')
        node = [m.group(2).rstrip(), []]
        del stack[depth:]
        stack[-1][1].append(node)
        stack.append(node)
    return root[0], root[1]


LABEL = re.compile(r'^(.*?) (-?\d+)(?: / (-?\d+))?$', re.S)
LABEL_DIFF = re.compile(r'^(.*?) (-?\d+) +([+-]?\d+)(?: / (-?\d+) +([+-]?\d+))?$', re.S)


def tree(text, diff):
    """-> [(name, (size, diff), total or None, children)]"""
    _, nodes = raw_tree(text)

    def conv(n):
        m = (LABEL_DIFF if diff else LABEL).match(n[0])
        if not m:
            raise Violation(f'tree label {n[0]!r} is not a name followed by sizes')
        if diff:
            size = (int(m.group(2)), int(m.group(3)))
            total = (int(m.group(4)), int(m.group(5))) if m.group(4) else None
        else:
            size = (int(m.group(2)), 0)
            total = (int(m.group(3)), 0) if m.group(3) else None
        return (m.group(1), size, total, [conv(c) for c in n[1]])
    return [conv(n) for n in nodes]


IMAGE = re.compile(r'Total image size: *(-?\d+)(?: +([+-]?\d+))? bytes')


def image_size(err, diff):
    m = IMAGE.search(err)
    if not m or bool(m.group(2)) != bool(diff):
        raise Violation(f'no total image size in:\n{err}')
    return (int(m.group(1)), int(m.group(2) or 0))


# ---------------------------------------------------------------- DOT

TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|->|[{}\[\];,=]|[A-Za-z_0-9.]+)', re.S)


def _unq(t):
    if t.startswith('"'):
        return re.sub(r'\\(["\\])', lambda m: m.group(1), t[1:-1])
    return t


def dot(text):
    """-> ({node: attrs}, {(from, to): attrs})"""
    toks, pos = [], 0
    text = text.rstrip()
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise Violation(f'not well formed DOT at {text[pos:pos + 60]!r}:\n{text[:3000]}')
        toks.append(m.group(1))
        pos = m.end()
    if toks[:3] != ['strict', 'digraph', '{'] or toks[-1:] != ['}']:
        raise Violation(f'not one DOT graph:\n{text[:3000]}')
    i, nodes, edges = 3, {}, {}

    def attrs(i):
        d = {}
        if toks[i] != '[':
            return d, i
        i += 1
        while toks[i] != ']':
            if toks[i] in ',;':
                i += 1
                continue
            if toks[i + 1] != '=':
                raise Violation(f'malformed DOT attributes near {toks[i]!r}')
            d[_unq(toks[i])] = _unq(toks[i + 2])
            i += 3
        return d, i + 1
    try:
        while i < len(toks) - 1:
            if toks[i] == ';':
                i += 1
                continue
            a = toks[i]
            if a in ('->', '[', ']', '=', ',', '{', '}'):
                raise Violation(f'malformed DOT near {a!r}:\n{text[:3000]}')
            if toks[i + 1] == '->':
                b = toks[i + 2]
                at, i = attrs(i + 3)
                if (_unq(a), _unq(b)) in edges:
                    raise Violation(f'DOT edge {a} -> {b} listed twice')
                edges[(_unq(a), _unq(b))] = at
            else:
                at, i = attrs(i + 1)
                nodes[_unq(a)] = at
    except IndexError:
        raise Violation(f'truncated DOT graph:\n{text[:3000]}')
    return nodes, edges
