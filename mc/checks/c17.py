"""C17: history independence.  Every bounded sequence of operations (command line runs, library calls, changes of the
project files) is executed in one process; every result is compared with the same operation in a process that has done
nothing before."""
import hashlib
import json
import os
import pickle
import shutil
import signal

from .. import family, imgs, lto, model, proj, sut
from ..core import Space, Violation

ASSUMPTIONS = ['a fresh process is a fork of the explorer before any operation, checked against real subprocesses in the '
               'environment space', 'files are not changed while an operation runs']

A, B, C = 'esp-idf/a/liba.a', 'esp-idf/b/libb.a', '/opt/x/liba.a'


def img(v):
    """Variants of a project: sizes, objects, cross references, chip."""
    k = v * 4
    target = 'esp32s3' if v == 2 else 'esp32'
    i = imgs.image([('.iram0.text', [(A, 'x.c.obj', '.text.f', 0x10 + k), (B, 'y.c.obj', '.text.g', 0x20),
                                     (None, 'lto.o', '.text.m', 8), (None, 'lto.o', '.text.n', 16)]),
                    ('.dram0.data', [(A, 'x.c.obj', '.data.d', 0x8), ('fill', 4), (C, 'x.c.obj', '.data.e', 4 + k)]),
                    ('.dram0.bss', [(B, 'y.c.obj', '.bss.z', 0x10)]),
                    ('.flash.text', [(B if v != 1 else A, 'y.c.obj', '.text.h', 0x40 - k), (C, 'q.c.obj', '.text.q', 4)])], target)
    imgs.autosyms(i)
    i.crt = [('f', [f'{A}(x.c.obj)', f'{B}(y.c.obj)', f'{C}(x.c.obj)']), ('h', [f'{A if v == 1 else B}(y.c.obj)', f'{A}(x.c.obj)',
                                                                                f'{C}(q.c.obj)']),
             ('d', [f'{A}(x.c.obj)', f'{B}(y.c.obj)']), ('q', [f'{C}(q.c.obj)', f'{B}(y.c.obj)', f'{A}(x.c.obj)'])]
    return i


def parts(v, comps=0, linktime=False, target=True):
    """The files of a project variant: {relative name: bytes}"""
    i = img(v)
    units = [('/p/main/m.c', [('func', 'm', at(i, 'm'))]), ('/p/main/sub/n.c', [('func', 'n', at(i, 'n'))])]
    d = os.path.join(sut.WDIR, 'mk')
    desc = lto.description([{'main': ('/p/main', 'esp-idf/main/libmain.a')},
                            {'main': ('/p/main', 'esp-idf/main/libmain.a'), 'sub': ('/p/main/sub', 'esp-idf/s/libs.a')}][comps],
                           i.target)
    if not target:
        del desc['target']
    proj.put(d, i, elf=True, dwarf=lto.dwarf(units), proj_desc=desc, sdkconfig={'COMPILER_LTO_LINKTIME': linktime})
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), 'rb') as fh:
                out[os.path.relpath(os.path.join(b, f), d)] = fh.read()
    return out


def at(i, name):
    return next(s['addr'] for s in i.symbols if s['name'] == name)


_files = {}


def variant(name):
    if name not in _files:
        if name == 'base':
            f = parts(0)
        elif name == 'other':
            f = parts(1, 1)
        elif name == 's3':
            f = parts(2)
        elif name == 'lto':
            f = parts(0, 0, True)
        elif name == 'lto-sub':
            f = parts(0, 1, True)
        elif name == 'no-elf':
            f = {k: v for k, v in parts(0).items() if not k.endswith('.elf')}
        elif name == 'no-desc':
            f = {k: v for k, v in parts(0).items() if not k.startswith('project_')}
        elif name == 'elf-only':   # only the ELF differs (map of 0, symbols moved)
            f = dict(parts(0))
            f['app.elf'] = parts(1)['app.elf']
        elif name == 'broken':
            f = dict(parts(0))
            f['app.map'] = f['app.map'].replace(b'0x40080000', b'0xzz')
        _files[name] = f
    return _files[name]


def write(d, name):
    want = variant(name)
    have = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            have[os.path.relpath(os.path.join(b, f), d)] = None
    for f in have:
        if f not in want:
            os.unlink(os.path.join(d, f))
    for f, data in want.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as fh:
            fh.write(data)


VARIANTS = ('base', 'other', 's3', 'lto', 'lto-sub', 'no-elf', 'no-desc', 'elf-only', 'broken')

# ---------------------------------------------------------------- operations


def dirs():
    return os.path.join(sut.WDIR, 'h', 'X'), os.path.join(sut.WDIR, 'h', 'Y')


def digest(d):
    out = []
    for b, ds, fs in os.walk(d):
        for f in sorted(fs) + sorted(ds):
            p = os.path.join(b, f)
            out.append((os.path.relpath(p, d), hashlib.blake2b(open(p, 'rb').read()).hexdigest() if os.path.isfile(p) else 'dir'))
    return sorted(out)


def cl(*args):
    def op():
        x, y = dirs()
        out = os.path.join(sut.WDIR, 'h', 'out.txt')
        if os.path.exists(out):
            os.unlink(out)
        a = [{'X': x + '/app.map', 'Y': y + '/app.map', 'OUT': out, 'BAD': x + '/app.map/x/y'}.get(v, v) for v in args]
        os.environ['TERM'] = 'xterm-256color' if '--force-terminal' in args else 'dumb'
        r = sut.cli(*a)
        os.environ['TERM'] = 'dumb'
        data = open(out).read() if os.path.exists(out) else None
        return (r.rc, r.out, r.err, repr(r.exc), data)
    return op


def canon(m):
    return json.dumps(m, sort_keys=False)


def libget(which, **kw):
    def op():
        x, y = dirs()
        p = {'X': x, 'Y': y}[which] + '/app.map'
        try:
            return canon(sut.get(p, **kw)[0])
        except sut.memorymap.MemMapException as e:
            return 'error ' + str(e)
    return op


def libdiff(u):
    def op():
        x, y = dirs()
        try:
            a, b = sut.get(x + '/app.map')[0], sut.get(y + '/app.map')[0]
            d = sut.quietly(sut.memorymap.diff, a, b)
            if u:
                sut.quietly(sut.memorymap.unify, d)
            return canon(d) + canon(a) + canon(b)
        except sut.memorymap.MemMapException as e:
            return 'error ' + str(e)
    return op


def libobjects(**kw):
    """Already parsed objects give the result of letting the tool load them."""
    def op():
        x, _ = dirs()
        p = x + '/app.map'
        try:
            mf = sut.quietly(sut.mapfile.MapFile, p)
            e = sut.quietly(sut.memorymap.get_elf, p) if hasattr(sut.memorymap, 'get_elf') else None
            return canon(sut.get(p, map_file=mf, elf=e, **kw)[0])
        except (sut.memorymap.MemMapException, sut.mapfile.MapFileException) as e:
            return 'error ' + str(e)
    return op


OPS = {
    'table': cl('X'), 'archives': cl('--archives', 'X'), 'files-csv': cl('--files', '--format', 'csv', 'X'),
    'details-json': cl('--archive-details', 'liba.a', '--format', 'json2', 'X'), 'tree': cl('--format', 'tree', '--archives', 'X'),
    'raw': cl('--format', 'raw', '--lto', 'X'), 'raw-Y': cl('--format', 'raw', 'Y'), 'json': cl('--format', 'json2', 'X'),
    'lto-files': cl('--lto', '--files', '--format', 'csv', 'X'), 'no-lto': cl('--no-lto', '--files', '--format', 'json2', 'X'),
    'dot': cl('--archive-dependencies', '--format', 'dot', 'X'),
    'deps': cl('--archive-dependencies', '--dep-symbols', '--dep-reverse', '--format', 'csv', 'X'),
    'diff': cl('--diff', 'Y', 'X'), 'diff-csv': cl('--diff', 'X', '--archives', '--format', 'csv', '--unify', 'Y'),
    'diff-raw': cl('--diff', 'Y', '--format', 'raw', '--show-unchanged', 'X'),
    'unify': cl('--unify', '--files', '--format', 'csv', 'X'), 'unused': cl('--show-unused', '--use-flash-size', '--format', 'csv', 'X'),
    'sorted': cl('--sort', '-1', '--sort-reverse', '--archives', '-F', '*a*', '--no-abbrev', 'X'),
    'quiet': cl('-q', 'X'), 'debug': cl('--debug', 'X'), 'no-color': cl('--no-color', '--force-terminal', 'X'),
    'color': cl('--force-terminal', '--archives', 'X'), 'file': cl('-o', 'OUT', '--format', 'json2', 'X'),
    'fails-sort': cl('--sort', '99', 'X'), 'fails-missing': cl('X/nothing.map'), 'fails-usage': cl('--nope', 'X'),
    'fails-file': cl('-o', 'BAD', 'X'), 'quiet-file': cl('-q', '-o', 'OUT', 'X'),
    'get': libget('X'), 'get-sym': libget('X', load_symbols=True), 'get-lto': libget('X', use_dwarf=True),
    'get-Y': libget('Y', load_symbols=True), 'libdiff': libdiff(False), 'libdiff-unify': libdiff(True),
    'objects': libobjects(load_symbols=True), 'objects-lto': libobjects(use_dwarf=True),
}
SAME = {'objects': 'get-sym', 'objects-lto': 'get-lto'}


def in_child(steps):
    """Run the steps in a fork of this process; returns their results."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(60)
            res = []
            x, y = dirs()
            for s in steps:
                if isinstance(s, tuple):
                    write({'X': x, 'Y': y}[s[0]], s[1])
                    res.append(None)
                else:
                    before = (digest(x), digest(y), sorted(os.listdir('.')))
                    res.append(OPS[s]())
                    if (digest(x), digest(y), sorted(os.listdir('.'))) != before:
                        res[-1] = f'input files changed by {s}: {before} -> {digest(x)} {digest(y)} {os.listdir(".")}'
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise Violation(f'{steps}: process died, status {st}')
    return pickle.loads(data)


_fresh = {}


def fresh(op, world):
    key = (op, world)
    if key not in _fresh:
        _fresh[key] = in_child([('X', world[0]), ('Y', world[1]), op])[-1]
    return _fresh[key]


def check_history(sc):
    steps = [('X', sc[0][0]), ('Y', sc[0][1])] + list(sc[1])
    world = list(sc[0])
    want = []
    for s in sc[1]:
        if isinstance(s, tuple):
            world['XY'.index(s[0])] = s[1]
            want.append(None)
        else:
            want.append((s, tuple(world), fresh(s, tuple(world))))
    got = in_child(steps)[2:]
    for i, (g, w) in enumerate(zip(got, want)):
        if w is None:
            continue
        if g != w[2]:
            raise Violation(f'{steps}: step {i + 1} ({w[0]}) differs from the same operation in a fresh process\n'
                            f'--- in this history\n{show(g)}\n--- fresh\n{show(w[2])}')
        if w[0] in SAME:
            f = fresh(SAME[w[0]], w[1])
            if strip(f) != strip(g):
                raise Violation(f'{steps}: {w[0]} differs from {SAME[w[0]]}\n{show(g)}\n---\n{show(f)}')
    return hashlib.blake2b(repr(got).encode()).hexdigest()


def strip(g):
    return 'error' if isinstance(g, str) and g.startswith('error') else g


def show(g):
    return '\n'.join(str(x) for x in g) if isinstance(g, tuple) else str(g)


MAIN = ('raw', 'lto-files', 'deps', 'diff-raw', 'libdiff-unify', 'quiet', 'color', 'objects-lto', 'fails-sort', 'dot', 'unused')


def pair_space(firsts, seconds, name, worlds):
    def build(c):
        w = c.choose('projects', worlds)
        return (w, (c.choose('first', firsts), c.choose('second', seconds)))
    return Space(name, build, check_history, timeout=90,
                 bounds=f'all sequences of 2 operations: {len(firsts)} x {len(seconds)} x {len(worlds)} project pairs')


def change_space(firsts, seconds, changes, worlds):
    def build(c):
        w = c.choose('projects', worlds)
        f = c.choose('first', firsts)
        ch = c.choose('change', changes)
        return (w, (f, ch, c.choose('second', seconds)))
    return Space('changed-files', build, check_history, timeout=90,
                 bounds=f'{len(firsts)} operations x {len(changes)} changes of the project files x {len(seconds)} operations x '
                        f'{len(worlds)} starting points')


def triple_space(ops, worlds, depth=3):
    def build(c):
        w = c.choose('projects', worlds)
        return (w, tuple(c.choose(f'step {i}', ops) for i in range(depth)))
    return Space(f'histories-{depth}', build, check_history, timeout=90,
                 bounds=f'all sequences of {depth} operations over {len(ops)} x {len(worlds)} project pairs')


# ---------------------------------------------------------------- objects reused


def check_objects(sc):
    """One parsed map and one ELF object used for a sequence of calls."""
    name, calls, replaced = sc

    def run():
        x, _ = dirs()
        write(x, name)
        p = x + '/app.map'
        mf = sut.quietly(sut.mapfile.MapFile, p)
        e = sut.quietly(sut.memorymap.get_elf, p)
        snap, esnap = public(mf), elf_public(e)
        if replaced:
            # what was passed counts, not what happens to be on the disk
            for f in ('app.map', 'app.elf'):
                if f in variant(name):
                    with open(os.path.join(x, f + '.new'), 'wb') as fh:
                        fh.write(variant(replaced).get(f, b''))
                    os.replace(os.path.join(x, f + '.new'), os.path.join(x, f))
        res = []
        for c in calls:
            try:
                if c == 'validate':
                    sut.quietly(mf.validate)
                    res.append(None)
                elif c == 'cus':
                    if e is not None:
                        sut.quietly(e.add_cus_to_symbols)
                    res.append(None)
                else:
                    kw, use = CALLS[c]
                    kw = dict(kw, **({'map_file': mf} if 'm' in use else {}), **({'elf': e} if 'e' in use else {}))
                    m = sut.get(p, **kw)[0]
                    res.append(canon(m))
                    # the caller owns the result: spoil it
                    spoil(m)
            except (sut.memorymap.MemMapException, sut.mapfile.MapFileException) as x2:
                res.append('error ' + str(x2))
            if public(mf) != snap:
                return f'map file object changed by {c}: {snap} -> {public(mf)}'
            if elf_public(e) != esnap:
                return f'ELF object changed by {c}: {esnap} -> {elf_public(e)}'
        return res
    got = child(run)
    if isinstance(got, str):
        raise Violation(f'{sc}: {got}')
    for c, g in zip(calls, got):
        if c in CALLS:
            kw = CALLS[c][0]
            f = fresh_call(name, tuple(sorted(kw.items())))
            if g != f:
                raise Violation(f'{sc}: {c} gives\n{g}\nand in a fresh process, without passed objects\n{f}')
    return hashlib.blake2b(repr(got).encode()).hexdigest()


def spoil(m):
    for t in m['memory_types'].values():
        t['size'] = -1
        t['sections'].clear()
    m['memory_types'].clear()


def public(mf):
    return repr((mf.memory_regions, mf.target, mf.sections, mf.cross_reference_table))


def elf_public(e):
    return e and repr([(s.name, s.st_name, s.st_value, s.st_size, s.st_info, s.st_other, s.st_shndx, s.type) for s in e.symbols])


CALLS = {'plain': ({}, ''), 'map': ({}, 'm'), 'sym-both': ({'load_symbols': True}, 'me'), 'lto-both': ({'use_dwarf': True}, 'me'),
         'sym-elf': ({'load_symbols': True}, 'e'), 'lto-sym-map': ({'use_dwarf': True, 'load_symbols': True}, 'm'),
         'lto-sym-both': ({'use_dwarf': True, 'load_symbols': True}, 'me')}
_calls = {}


def fresh_call(name, kw):
    if (name, kw) not in _calls:
        def run():
            x, _ = dirs()
            write(x, name)
            try:
                return canon(sut.get(x + '/app.map', **dict(kw))[0])
            except sut.memorymap.MemMapException as e:
                return 'error ' + str(e)
        _calls[name, kw] = child(run)
    return _calls[name, kw]


def child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(60)
            with os.fdopen(w, 'wb') as f:
                try:
                    pickle.dump(fn(), f)
                except Exception:
                    import traceback
                    pickle.dump(traceback.format_exc(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation('process died')
    return pickle.loads(data)


def object_space(depth, names):
    alpha = tuple(CALLS) + ('validate', 'cus')

    def build(c):
        n = c.choose('project', names)
        k = c.choose('length', range(1, depth + 1))
        return (n, tuple(c.choose(f'call {i}', alpha) for i in range(k)), None)
    return Space('passed-objects', build, check_objects, bounds=f'all sequences of <= {depth} calls over {len(alpha)} with one map '
                 f'file object and one ELF object x {len(names)} projects')


def replaced_space(names):
    both = tuple(c for c in CALLS if CALLS[c][1] == 'me')

    def build(c):
        n = c.choose('project', names)
        k = c.choose('length', (1, 2))
        return (n, tuple(c.choose(f'call {i}', both) for i in range(k)), c.choose('on disk', ('other', 's3')))
    return Space('passed-objects-only', build, check_objects, bounds='calls with both objects passed while other files are on the disk')


# ---------------------------------------------------------------- environment

ENVS = [('0', None, {}), ('1', None, {}), ('2', None, {}), ('17', None, {}), ('12345', None, {}), ('random', None, {}),
        ('0', 'elsewhere', {}), ('0', 'project', {}), ('0', 'root', {}), ('0', None, {'COLUMNS': '20'}),
        ('0', None, {'HOME': '/nonexistent', 'TZ': 'Asia/Tokyo', 'LANG': 'C'}), ('0', None, {'PYTHONOPTIMIZE': '1'}),
        ('0', None, {'PYTHONDEVMODE': '0', 'LC_ALL': 'C.UTF-8'}), ('0', 'littered', {}),
        ('0', 'subdirectory', {})]
ENVCMD = {
    'table': ('X',), 'archives': ('--archives', 'X'), 'files': ('--files', '--format', 'csv', 'X'), 'raw': ('--format', 'raw', '--lto', 'X'),
    'tree': ('--format', 'tree', '--archive-details', 'liba.a', 'X'), 'json': ('--format', 'json2', '--files', 'X'),
    'details': ('--archive-details', 'liba.a', 'X'),
    'dot': ('--archive-dependencies', '--format', 'dot', '--dep-symbols', 'X'),
    'deps': ('--archive-dependencies', '--dep-symbols', 'X'), 'deps-rev': ('--archive-dependencies', '--dep-symbols', '--dep-reverse',
                                                                        '--format', 'tree', 'X'),
    'deps-json': ('--archive-dependencies', '--dep-symbols', '--format', 'json2', 'X'),
    'deps-raw': ('--archive-dependencies', '--dep-symbols', '--format', 'raw', '--dep-reverse', 'X'),
    'diff': ('--diff', 'Y', '--files', '--format', 'csv', 'X'), 'diff-raw': ('--diff', 'Y', '--format', 'raw', '--unify', 'X'),
    'deps-unify': ('--archive-dependencies', '--dep-symbols', '--unify', '--format', 'csv', 'X'), 'fails': ('--sort', '77', 'X'),
}


def litter():
    """A working directory with files named like everything the tool reads."""
    d = os.path.join(sut.WDIR, 'litter')
    write(d, 's3')
    for n in ('esp32.yaml', 'esp32.yml', 'chip_info/esp32.yaml', 'config.json', 'esp_idf_size.cfg', '.esp_idf_size', 'setup.cfg', 'liba.a',
              'sdkconfig', 'sdkconfig.json', 'esp-idf/a/liba.a'):
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), 'w') as f:
            f.write('garbage: 1\n')


def check_env(sc):
    cmd, e = sc
    seed, where, env = ENVS[e]
    x, y = dirs()
    write(x, 'lto-sub')
    write(y, 'other')
    if where == 'littered':
        litter()
    if where == 'subdirectory':
        os.makedirs(os.path.join(sut.WDIR, 'h', 'Y', 'deep', 'er'), exist_ok=True)
    cwd = {'littered': os.path.join(sut.WDIR, 'litter'), 'subdirectory': os.path.join(sut.WDIR, 'h', 'Y', 'deep', 'er'),
           None: sut.WDIR, 'elsewhere': os.path.join(sut.WDIR, 'h'), 'project': x, 'root': '/'}[where]
    p = os.path.join(x, 'app.map')
    args = [{'X': p, 'Y': y + '/app.map'}.get(a, a) for a in ENVCMD[cmd]]
    if cmd not in _envref:
        _envref[cmd] = child(lambda: plain(sut.cli(*args)))
    before = sorted(os.listdir(cwd))
    r = plain(sut.cli_subprocess(args, cwd=cwd, env=env, hashseed=seed))
    if r != _envref[cmd]:
        raise Violation(f'{cmd} with hash seed {seed}, directory {cwd}, environment {env}:\n{show(r)}\n--- in process\n'
                        f'{show(_envref[cmd])}')
    if sorted(os.listdir(cwd)) != before:
        raise Violation(f'{cmd}: files left in {cwd}')
    if where == 'project':
        rel = [{'X': 'app.map', 'Y': '../Y/app.map'}.get(a, a) for a in ENVCMD[cmd]]
        q = plain(sut.cli_subprocess(rel, cwd=cwd, env=env, hashseed=seed))
        if (q[0], q[1]) != (r[0], r[1]):
            raise Violation(f'{cmd} with relative paths:\n{show(q)}\n--- with absolute ones\n{show(r)}')
    return r


_envref = {}


def plain(r):
    return (r.rc, r.out, r.err)


def env_space(cmds):
    def build(c):
        return (c.choose('command', cmds), c.choose('environment', range(len(ENVS))))
    return Space('environment', build, check_env, timeout=120, bounds=f'{len(cmds)} commands x {len(ENVS)} hash seeds, working '
                 'directories and environments, in separate processes')


def spaces(tier):
    ops = tuple(OPS)
    if tier == 'quick':
        return [pair_space(ops, ops, 'histories-2', (('base', 'other'),)),
                triple_space(MAIN[:7], (('lto', 's3'),)),
                change_space(('raw', 'lto-files', 'deps', 'get-sym', 'libdiff'), ('raw', 'lto-files', 'json', 'get-sym', 'objects-lto', 'diff'),
                             [('X', v) for v in VARIANTS] + [('Y', 's3')], (('base', 'other'), ('lto', 'no-elf'))),
                object_space(2, ('base', 'lto-sub', 'no-elf')), replaced_space(('base', 'lto-sub')), env_space(tuple(ENVCMD))]
    worlds = (('base', 'other'), ('lto', 's3'), ('lto-sub', 'no-elf'), ('no-desc', 'base'), ('broken', 'base'), ('base', 'broken'))
    return [pair_space(ops, ops, 'histories-2', worlds), triple_space(ops, worlds[:1]), triple_space(MAIN[:5], worlds[:1], 4),
            change_space(ops, ops, [('X', v) for v in VARIANTS] + [('Y', 's3'), ('Y', 'lto')], (('base', 'other'),)),
            object_space(4, VARIANTS[:8]), replaced_space(('base', 'lto-sub')), env_space(tuple(ENVCMD))]
