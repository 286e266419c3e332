"""C21: verbatim names, well-formed machine formats and clean streams."""
import json
import os
import pty
import re
import select
import shutil
import subprocess
import sys

from .. import depsref, expect, imgs, model, proj, reports, sut
from ..core import Prune, Space, Violation
from . import c14

ASSUMPTIONS = ['names do not contain control characters, line breaks or box drawing characters and do not start or end with blanks',
               'section names contain no blanks (the linker map cannot represent them)',
               'names in table and tree reports are shorter than 9000 characters (the report width is 10000)',
               '--no-color removes colours; bold and italic may stay on terminals']

NAMES = ['plain', '[bold]x[/bold]', '[/]', '[/x]', 'x[', 'x]', '[]', '[[x]]', '\\[x]', 'a\\b', 'a\\', '\\\\', '\\n', '\\u0041', 'a"b', '"',
         '""', "a'b", 'a,b', ',', ';', 'a;b', 'a=b', '=1+1', 'a b', 'a  b c', '\xfcn\xef', '\u65e5\u672c\u8a9e', '\U0001f600', ':smile:',
         '{0}', '{}', '%s%d', '<b>&amp;', '#x', '$HOME', '`x`', 'a|b', 'e\u0301', 'z\u200bw', '-flag', '*', '?', 'a->b', '/*', 'null', 'true',
         '1234', '0x12', '1e5', '[red]', '[#ff0000]', '[link=http://x.y]z', '[@click=f]', '[1]', '@f', '~', '^', '!', '+1', 'a 12',
         'x\\"y', '\\', "\\'", '[x', '</b>', '(x)']
QUICK_PAIRS = ['[bold]x[/bold]', 'a"b', 'a,b', '\\[x]', '\xfcn\xef', ':smile:', 'a b', '\\']
LEVELS = ('dir', 'osec', 'archive', 'archive-dir', 'object', 'object-dir', 'exe-object', 'isec', 'symbol')
BASE_A = 'esp-idf/a/liba.a'


def allowed(level, name):
    if level in ('osec', 'isec'):
        return ' ' not in name and '/' not in name and name not in ('*',) and '(' not in name
    if level in ('archive', 'archive-dir', 'object', 'object-dir', 'exe-object'):
        if name == '(x)':
            return level in ('archive-dir',)
        return '/' not in name
    if level == 'dir':
        return '/' not in name
    return True


def project(levels):
    """levels: {level: name} -> (image with the names, base image, symbols need an ELF)"""
    g = levels.get
    osec = '.flash.rodata' if 'osec' not in levels else '.flash.' + g('osec')
    adir = f'esp-idf/{g("archive-dir")}/' if 'archive-dir' in levels else 'esp-idf/n/'
    arch = adir + (g('archive') + '.a' if 'archive' in levels else 'libn.a')
    odir = g('object-dir') + '/' if 'object-dir' in levels else ''
    obj = odir + (g('object') + '.obj' if 'object' in levels else 'n.c.obj')
    exe = 'main/' + (g('exe-object') if 'exe-object' in levels else 'm') + '.obj'
    isec = '.rodata.' + (g('isec') if 'isec' in levels else 'r')
    img = imgs.image([('.iram0.text', [(BASE_A, 'x.c.obj', '.text.f', 0x40), (arch, obj, '.text.g', 0x21), (None, exe, '.text.m', 8)]),
                      (osec, [(arch, obj, isec, 0x30), (BASE_A, 'x.c.obj', '.rodata.q', 0x10), ('fill', 4)])])
    imgs.autosyms(img)
    for s in img.symbols:
        if 'symbol' in levels and s['name'] in ('g', 'r'):
            s['name'] = g('symbol') if s['name'] == 'g' else g('symbol') + '2'
    img.crt = [('f', [f'{BASE_A}(x.c.obj)', f'{arch}({obj})']), ('g', [f'{arch}({obj})', f'{BASE_A}(x.c.obj)', exe])]
    base = imgs.image([('.iram0.text', [(BASE_A, 'x.c.obj', '.text.f', 0x44)]), ('.flash.rodata', [(BASE_A, 'x.c.obj', '.rodata.q', 0x10)])])
    imgs.autosyms(base)
    return img, base, arch


FORMATS = ('table', 'csv', 'json2', 'tree', 'raw')
NAMING = ('abbrev', 'full', 'unify')


def dirname(name):
    return os.path.join(sut.WDIR, 'd', name)


def check_names(sc):
    levels, fmts, naming, elf = sc
    levels = dict(levels)
    img, base, arch = project(levels)
    if not elf and 'symbol' in levels:
        elf = True
    shutil.rmtree(os.path.join(sut.WDIR, 'd'), ignore_errors=True)
    d = levels.get('dir', 'cur')
    mp = proj.put(dirname(d), img, elf=elf)
    rp = proj.put(dirname(d + '-ref'), base, elf=elf)
    outs = []
    for fmt in fmts:
        for nm in naming:
            for rep in ('summary', 'archives', 'files', 'details'):
                for diff in (False, True):
                    o = expect.O(fmt=fmt, report=rep, abbrev=nm != 'full', unify=nm == 'unify', unchanged=True)
                    if rep == 'details':
                        o.details = arch.rsplit('/', 1)[1]
                    r, m = expect.verify(o, mp, img, rp if diff else None, base if diff else None, elf, elf)
                    clean(r, o)
                    if fmt == 'raw':
                        got = reports.jsonv(r.out)
                        if got['project_path'] != mp or got['project_path_diff'] != (rp if diff else ''):
                            raise Violation(f'project paths {got["project_path"]!r} {got["project_path_diff"]!r}, expected {mp!r}, {rp!r}')
                    if fmt == 'table' and diff and rep == 'summary':
                        for p in (mp, rp):
                            if f'"{p}"' not in r.err:
                                raise Violation(f'{p!r} is not shown verbatim:\n{r.err}')
                    outs.append(r.out)
    return ''.join(outs)


def clean(r, o):
    for what, text in (('stdout', r.out), ('stderr', r.err)):
        if '\x1b' in text or any(ord(c) < 32 and c not in '\n\t' for c in text):
            raise Violation(f'control characters on {what}: {text!r}\n{o!r}')


def single_space(names, naming):
    def build(c):
        name, level = c.choose('name', names), c.choose('level', LEVELS)
        if not allowed(level, name):
            raise Prune()
        elf = c.flag('elf')
        return ((level, name),), FORMATS, naming or (('full',) if elf else ('abbrev',)), elf
    return Space('names', build, check_names, bounds=f'{len(names)} names x {len(LEVELS)} levels x formats x reports x {naming} x diff x ELF')


def pair_space(names):
    def build(c):
        a = c.choose('first', LEVELS)
        b = c.choose('second', LEVELS)
        if LEVELS.index(a) >= LEVELS.index(b):
            raise Prune()
        n, k = c.choose('name1', names), c.choose('name2', names)
        if not allowed(a, n) or not allowed(b, k):
            raise Prune()
        return ((a, n), (b, k)), FORMATS, ('abbrev',), False
    return Space('name-pairs', build, check_names, bounds=f'{len(names)}^2 names x all pairs of levels')


# ---------------------------------------------------------------- dependencies

def check_deps(sc):
    level, name, kind = sc
    A, B = 'esp-idf/a/liba.a', 'esp-idf/b/libb.a'
    sym = 's'
    if level == 'archive':
        A = f'esp-idf/a/{name}.a'
    elif level == 'archive-dir':
        A = f'esp-idf/{name}/liba.a'
    elif level == 'symbol':
        sym = name
    elif level == 'both':
        A, B, sym = f'esp-idf/{name}/{name}.a', f'esp-idf/{name}/lib{name}.a', name if ' ' not in name else 's'
    if level == 'object':
        o1, o2 = name + '.obj', name + '2.obj'
    else:
        o1, o2 = 'x.c.obj', 'y.c.obj'
    crt = [(sym, [f'{A}({o1})', f'{B}({o2})', 'main/m.obj']), ('t', [f'{B}({o2})', f'{A}({o1})']), ('u', [f'{A}({o1})', f'{B}({o2})']),
           ('v', [f'{B}({o2})', 'main/m.obj'])]
    img = depsref.project(crt, [(s, 'func', 1) for s, _ in crt], (A, B, None))
    return c14.run_all(img, c14.ALL_MODES if kind == 'all' else c14.FEW_MODES, c14.FORMATS)


def deps_space(names, kind):
    def build(c):
        name, level = c.choose('name', names), c.choose('level', ('archive', 'archive-dir', 'symbol', 'object', 'both'))
        if '/' in name or '(' in name and level != 'archive-dir':
            raise Prune()
        if level == 'symbol' and ' ' in name or level == 'symbol' and name in ('-flag',):
            raise Prune()
        return level, name, kind
    return Space('dependencies', build, check_deps, bounds=f'{len(names)} names x levels x formats x modes')


# ---------------------------------------------------------------- long names

def check_long(sc):
    level, n, char = sc
    name = (char * n)[:n].strip() or 'x'
    img, base, arch = project({level: name})
    shutil.rmtree(os.path.join(sut.WDIR, 'd'), ignore_errors=True)
    elf = level == 'symbol'
    mp = proj.put(dirname('cur'), img, elf=elf)
    outs = []
    for fmt in FORMATS if n <= 9000 else ('csv', 'json2', 'raw'):
        for rep in ('summary', 'archives', 'files', 'details'):
            o = expect.O(fmt=fmt, report=rep, abbrev=rep == 'details')
            if rep == 'details':
                o.details = arch.rsplit('/', 1)[1]
            r, _ = expect.verify(o, mp, img, None, None, elf, elf)
            outs.append(str(len(r.out)))
    return ' '.join(outs)


def long_space(lengths):
    def build(c):
        level = c.choose('level', ('archive', 'archive-dir', 'object', 'isec', 'symbol', 'osec'))
        n = c.choose('length', lengths)
        char = c.choose('character', ('n', 'ab ', '[x]', '\u65e5', '"', ',', ', '))
        if not allowed(level, char):
            raise Prune()
        if n * (2 if char == '\u65e5' else 1) > 9000 and n <= 9000:
            raise Prune()
        return level, n, char
    return Space('long-names', build, check_long, bounds=f'6 levels x lengths {lengths} x 7 fillings')


# ---------------------------------------------------------------- streams

ANSI = re.compile(r'\x1b\[[0-9;]*m')
ANY = re.compile(r'\x1b')
REPORTS = {'summary': [], 'archives': ['--archives'], 'files': ['--files'], 'details': ['--archive-details', 'liba.a'],
           'deps': ['--archive-dependencies'], 'deps-syms': ['--archive-dependencies', '--dep-symbols', '--dep-reverse']}
ALLF = ('table', 'text', 'csv', 'json2', 'tree', 'raw', 'dot')


def coloured(text):
    for m in ANSI.findall(text):
        for p in m[2:-1].split(';'):
            if p and (30 <= int(p) <= 49 or 90 <= int(p) <= 107):
                return True
    return False


def stream_projects(cond, where='s'):
    """Project (and reference) for a condition; returns (map, reference, expect failure, text expected in the diagnostics)"""
    img, base, _ = project({})
    d = os.path.join(sut.WDIR, where)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rp = proj.put(os.path.join(d, 'ref'), base, elf=True)
    if cond == 'warning':
        # dram region overflows by 64 bytes
        img.regions = [(n, o, 0x40 if n.startswith('iram0_0') else ln, a) for n, o, ln, a in img.regions]
    mp = proj.put(os.path.join(d, 'cur'), img, elf=True)
    if cond == 'missing':
        os.unlink(mp)
        return mp, rp, True, None
    if cond == 'garbage':
        with open(mp, 'w') as f:
            f.write('hello\n')
        return mp, rp, True, None
    if cond == 'bad-elf':
        with open(os.path.join(d, 'cur', 'app.elf'), 'wb') as f:
            f.write(b'\x7fELFgarbage')
        return mp, rp, False, 'cannot parse ELF'
    return mp, rp, False, 'WARNING' if cond == 'warning' else None


def parse(fmt, text, diff):
    if fmt in ('json2', 'raw'):
        reports.jsonv(text)
    elif fmt == 'csv':
        reports.csv_table(text)
    elif fmt == 'dot':
        reports.dot(text)
    elif fmt == 'tree':
        reports.raw_tree(text)
        if not text.startswith(('Memory Types', 'Archive')):
            raise Violation(f'not only a tree on stdout:\n{text}')
    else:
        reports.table(text)


def check_streams(sc):
    rep, fmt, diff, cond, flags = sc
    mp, rp, dead, diag = stream_projects(cond)
    args = ['--format', fmt, *REPORTS[rep]] + (['--diff', rp] if diff else [])
    os.environ['TERM'] = 'xterm-256color'
    try:
        plain = sut.cli(*args, mp)
        out = [f'{plain.rc}']
        if plain.exc is not None:
            raise Violation(f'exception {plain.exc!r}')
        if fmt == 'dot' and not rep.startswith('deps') or cond == 'bad-elf' and rep.startswith('deps'):
            dead = True
        if bool(plain.rc) != dead:
            raise Violation(f'exit status: {plain!r}')
        if dead:
            if plain.out or not plain.err.strip():
                raise Violation(f'a failure reports on stderr only: {plain!r}')
        else:
            parse(fmt, plain.out, diff)
            if diag and diag not in plain.err:
                raise Violation(f'diagnostic expected on stderr: {plain!r}')
            if not diag and ('WARNING' in plain.err or 'ERROR' in plain.err) and not (rep.startswith('deps') and diff):
                raise Violation(f'unexpected diagnostic: {plain!r}')
        clean(plain, args)
        ofn = os.path.join(sut.WDIR, 's', 'out')
        for fl in flags:
            extra = []
            for f in fl:
                extra += {'quiet': ['-q'], 'no-color': ['--no-color'], 'force': ['--force-terminal'], 'file': ['-o', ofn],
                          'debug': ['--debug']}[f]
            if os.path.exists(ofn):
                os.unlink(ofn)
            r = sut.cli(*extra, *args, mp)
            what = f'{extra} {args}: {r!r}'
            if r.exc is not None or r.rc != plain.rc:
                raise Violation(f'outcome differs from the plain run ({plain.rc}): {what}')
            if 'quiet' in fl:
                if r.out or r.err:
                    raise Violation(f'quiet mode prints: {what}')
                continue
            if 'no-color' in fl and (coloured(r.out) or coloured(r.err)):
                raise Violation(f'colours with --no-color: {r.out[:300]!r} {r.err[:300]!r} {extra} {args}')
            if ('force' not in fl or 'file' in fl) and (ANY.search(r.out) or ANY.search(r.err)):
                raise Violation(f'control sequences without a terminal: {r.out[:300]!r} {r.err[:300]!r} {extra} {args}')
            text, err = ANSI.sub('', r.out), ANSI.sub('', r.err)
            if ANY.search(text + err):
                raise Violation(f'control sequences other than styles: {what}')
            if 'file' in fl:
                if r.out and 'debug' not in fl:
                    raise Violation(f'output on stdout with --output-file: {what}')
                if dead:
                    if os.path.exists(ofn):
                        raise Violation(f'output file of a failed run: {what}')
                else:
                    with open(ofn, encoding='utf-8', newline='') as f:
                        text = f.read()
            if 'debug' in fl:
                if not dead and 'file' not in fl and not text.endswith(plain.out):
                    raise Violation(f'report does not follow the debug messages: {what[-3000:]}')
                continue
            if text.splitlines() != plain.out.splitlines() and not dead:
                raise Violation(f'report differs from the plain one:\n{text}\n---\n{plain.out}\n{extra} {args}')
            if squeeze(err) != squeeze(plain.err):
                raise Violation(f'diagnostics differ from the plain ones:\n{err}\n---\n{plain.err}\n{extra} {args}')
            if 'force' in fl and 'no-color' not in fl and 'file' not in fl and not dead and not coloured(r.out):
                raise Violation(f'no colours with --force-terminal: {r.out[:300]!r} {extra} {args}')
            out.append(f'{len(r.out)}')
        return ' '.join(out) + plain.out
    finally:
        os.environ['TERM'] = 'dumb'


def squeeze(t):
    return [x for x in t.split() if x]


def stream_space():
    order = ('quiet', 'no-color', 'force', 'file', 'debug')
    allf = [tuple(f for i, f in enumerate(order) if n >> i & 1) for n in range(1, 32)]

    def build(c):
        rep, fmt, diff = c.choose('report', tuple(REPORTS)), c.choose('format', ALLF), c.flag('diff')
        return rep, fmt, diff, c.choose('condition', ('ok', 'warning', 'missing', 'garbage', 'bad-elf')), allf
    return Space('streams', build, check_streams, bounds='6 reports x 7 formats x diff x 5 conditions x all 32 combinations of '
                                                         '{quiet, no-color, force-terminal, output-file, debug}')


# ---------------------------------------------------------------- real processes: pipes, environment, terminals

def run_pty(args, env):
    """Run with stdout and stderr on two different terminals."""
    e = dict(os.environ)
    e.update({'PYTHONPATH': sut.REPO, 'PYTHONPYCACHEPREFIX': os.path.join(sut.SCRATCH, 'pyc-sub'), 'PYTHONHASHSEED': '0',
              'PYTHONIOENCODING': 'utf-8', 'TERM': 'xterm-256color'})
    e.update(env)
    m1, s1 = pty.openpty()
    m2, s2 = pty.openpty()
    p = subprocess.Popen([sys.executable, '-m', 'esp_idf_size', *map(str, args)], cwd=sut.WDIR, env=e, stdin=subprocess.DEVNULL,
                         stdout=s1, stderr=s2)
    os.close(s1)
    os.close(s2)
    bufs = {m1: b'', m2: b''}
    live = {m1, m2}
    while live:
        for fd in select.select(list(live), [], [], 30)[0]:
            try:
                b = os.read(fd, 65536)
            except OSError:
                b = b''
            if not b:
                live.discard(fd)
            bufs[fd] += b
    rc = p.wait(30)
    for fd in bufs:
        os.close(fd)
    return sut.Result(rc, bufs[m1].decode('utf-8', 'replace').replace('\r\n', '\n'),
                      bufs[m2].decode('utf-8', 'replace').replace('\r\n', '\n'), None)


def check_process(sc):
    rep, fmt, cond, how = sc
    mp, rp, dead, diag = stream_projects(cond)
    args = ['--format', fmt, *REPORTS[rep], mp]
    plain = sut.cli(*args)
    if how == 'pipe':
        r = sut.cli_subprocess(args, env={'TERM': 'xterm-256color'})
        if ANY.search(r.out + r.err):
            raise Violation(f'control sequences in a pipe: {r.out[:300]!r} {r.err[:300]!r} {args}')
    elif how == 'env':
        r = sut.cli_subprocess(args, env={'TERM': 'xterm-256color', 'ESP_IDF_SIZE_FORCE_TERMINAL': '1'})
        if not plain.rc and not coloured(r.out):
            raise Violation(f'no colours with ESP_IDF_SIZE_FORCE_TERMINAL: {r.out[:300]!r} {args}')
    elif how == 'tty':
        r = run_pty(args, {})
        if not plain.rc and not coloured(r.out):
            raise Violation(f'no colours on a terminal: {r.out[:300]!r} {args}')
    elif how == 'tty-no-color':
        r = run_pty(['--no-color', *args], {})
        if coloured(r.out + r.err):
            raise Violation(f'colours with --no-color: {r.out[:300]!r} {r.err[:300]!r} {args}')
    else:
        r = run_pty(['-q', *args], {})
        if r.out or r.err or r.rc != plain.rc:
            raise Violation(f'quiet mode on a terminal: {r!r}')
        return 'quiet'
    text, err = ANSI.sub('', r.out), ANSI.sub('', r.err)
    if r.rc != plain.rc or text.splitlines() != plain.out.splitlines() or squeeze(err) != squeeze(plain.err):
        raise Violation(f'{how}: differs from the plain run\n{r!r}\n=== plain\n{plain!r}')
    return f'{how} {len(r.out)} {len(r.err)}'


def process_space(formats, conds):
    def build(c):
        rep, fmt = c.choose('report', ('summary', 'archives', 'deps-syms')), c.choose('format', formats)
        return rep, fmt, c.choose('condition', conds), c.choose('how', ('pipe', 'env', 'tty', 'tty-no-color', 'tty-quiet'))
    return Space('processes', build, check_process, timeout=60, bounds=f'3 reports x {formats} x {conds} x pipe/terminal/environment')


# ---------------------------------------------------------------- messages

def check_message(sc):
    """Names inside diagnostics are verbatim too."""
    name, what, fmt = sc
    d = os.path.join(sut.WDIR, 'm')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    img, base, _ = project({})
    args = ['--format', fmt]
    if what == 'missing':
        mp = os.path.join(d, name, 'x.map')
        r, want = sut.cli(*args, mp), mp
    elif what == 'archive':
        mp = proj.put(os.path.join(d, 'p'), img)
        if fmt in ('tree', 'raw'):
            return 'n/a'
        r, want = sut.cli(*args, '--archive-details', name, mp), name
    elif what == 'elf':
        mp = proj.put(os.path.join(d, name), img, elf=True, elf_bytes=b'junk')
        r, want = sut.cli(*args, mp), os.path.join(d, name, 'app.elf')
    elif what == 'sort':
        mp = proj.put(os.path.join(d, 'p'), img)
        if fmt not in ('table', 'csv') or re.fullmatch(r'[+-]?\d+', name):
            return 'n/a'
        r, want = sut.cli(*args, '--archives', '--sort', name, mp), name
    elif what == 'section':
        if not allowed('osec', name):
            return 'n/a'
        img.outs.append(model.Out('.flash.' + name, 0x10, 0x20, [model.Ins('.text.z', 0x10, 0x20, BASE_A, 'z.obj')]))
        mp = proj.put(os.path.join(d, 'p'), img)
        r, want = sut.cli(*args, mp), '.flash.' + name
    elif what == 'output':
        mp = proj.put(os.path.join(d, 'p'), img)
        with open(os.path.join(d, name), 'w') as f:
            f.write('a file, not a directory')
        want = os.path.join(d, name)
        r = sut.cli(*args, '-o', os.path.join(want, 'out'), mp)
    if r.exc is not None:
        raise Violation(f'{what} {name!r}: exception {r.exc!r}')
    if want not in r.err and repr(want)[1:-1] not in r.err:     # operating system errors quote the path
        raise Violation(f'{what}: {want!r} is not reproduced in the diagnostic: {r.err!r}')
    clean(r, args)
    return r.err


def message_space(names):
    def build(c):
        name = c.choose('name', names)
        if '/' in name:
            raise Prune()
        return name, c.choose('what', ('missing', 'archive', 'elf', 'sort', 'section', 'output')), c.choose('format', FORMATS)
    return Space('messages', build, check_message, bounds=f'{len(names)} names x 6 diagnostics x 5 formats')


def spaces(tier):
    if tier == 'quick':
        return [single_space(NAMES, None), pair_space(['[bold]x[/bold]', 'a"b,\\', '\xfc\\[x]']), deps_space(NAMES, 'few'), long_space((80, 255, 4096, 9000, 10001)),
                stream_space(), process_space(('table', 'json2', 'csv'), ('ok', 'missing')), message_space(NAMES)]
    return [single_space(NAMES, NAMING), pair_space(QUICK_PAIRS), deps_space(NAMES, 'all'), long_space((79, 80, 81, 255, 1000, 4096, 9000, 9999, 10000, 10001, 12000, 25000)), stream_space(),
            process_space(ALLF, ('ok', 'warning', 'missing')), message_space(NAMES)]
