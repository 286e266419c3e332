"""Memory maps in the documented dictionary format, built from leaves (type, section, archive, object, symbol)."""
import copy
import itertools

TYPES = ('IRAM', 'DRAM')
SECS = ('.iram0.text', '.iram1.text')
ARCHS = ('p/liba.a', 'q/liba.a')
OBJS = ('d/x.o', 'e/x.o')
SYMS = ('f', 'g')
LEAVES = list(itertools.product(TYPES, SECS, ARCHS, OBJS, SYMS))


def base(p):
    return p.rsplit('/', 1)[-1]


def build(leaves, padding=None, sizes=None, used_extra=0, target='esp32', image=1000, path='/p/app.map', types=()):
    """leaves: {path tuple: size} where a path may stop early (an entry without children)."""
    m = {'version': '1.0', 'target': target, 'target_diff': '', 'image_size': image, 'image_size_diff': 0,
         'project_path': path, 'project_path_diff': '', 'memory_types': {}}
    sizes = sizes or {}

    def mtype(t):
        return m['memory_types'].setdefault(t, {'size': sizes.get(t, 0x1000), 'size_diff': 0, 'used': 0, 'used_diff': 0,
                                                'sections': {}})

    for t in types:
        mtype(t)
    for p, v in leaves.items():
        ti = mtype(p[0])
        ti['used'] += v
        cur, lv = ti, 'sections'
        for depth, n in enumerate(p[1:]):
            lv = ('sections', 'archives', 'object_files', 'symbols')[depth]
            nxt = cur[lv].get(n)
            if nxt is None:
                nxt = {'abbrev_name': '.' + n.rsplit('.', 1)[-1] if depth == 0 else base(n), 'size': 0, 'size_diff': 0}
                if depth < 3:
                    nxt[('archives', 'object_files', 'symbols')[depth]] = {}
                cur[lv][n] = nxt
            nxt['size'] += v
            cur = nxt
    for (t, s), v in (padding or {}).items():
        ti = mtype(t)
        ti['used'] += v
        si = ti['sections'].setdefault(s, {'abbrev_name': '.' + s.rsplit('.', 1)[-1], 'size': 0, 'size_diff': 0,
                                           'archives': {}})
        si['size'] += v
    return m


def scramble(x, skip=False):
    """Modify every mutable part of a map in place."""
    if isinstance(x, dict):
        for k in list(x):
            v = x[k]
            if isinstance(v, dict):
                scramble(v)
            elif isinstance(v, (int, float)):
                x[k] = v + 77777
            else:
                x[k] = f'{v}#'
        x['__scrambled__'] = {}


def negated(m):
    """All *_diff values negated."""
    m = copy.deepcopy(m)

    def rec(d):
        for k, v in d.items():
            if isinstance(v, dict):
                rec(v)
            elif k.endswith('_diff') and isinstance(v, (int, float)):
                d[k] = -v
    rec(m)
    return m


def only_diffs(m):
    """{path: {k: v}} of all *_diff numbers."""
    out = {}

    def rec(d, path):
        for k, v in d.items():
            if isinstance(v, dict):
                rec(v, path + (k,))
            elif k.endswith('_diff') and isinstance(v, (int, float)):
                out[path + (k,)] = v
    rec(m, ())
    return out
