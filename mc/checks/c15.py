"""C15: the output file.  Fault enumeration on the real code: an exception is injected at every executed line of the
package and at every call into the rendering libraries; every kind of failing input and failing write; and the file is
compared with standard output for every report."""
import os
import resource
import shutil
import sys

from .. import family, imgs, model, proj, sut
from ..core import Space, Violation

LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['faults are exceptions raised at a line of the package or at a call in rich/esp_pylib; the operating '
               'system performs one write_text call atomically (torn writes of the file system are out of scope)',
               'a fault injected after the file was completely written may leave the complete report']

OLD = 'previous contents\n' * 400
A, B = 'esp-idf/a/liba.a', 'esp-idf/b/libb.a'


def tiny(k=0):
    img = imgs.image([('.iram0.text', [(A, 'x.c.obj', '.text.f', 0x10 + k), (B, 'y.c.obj', '.text.g', 0x20)]),
                      ('.dram0.data', [(A, 'x.c.obj', '.data.d', 0x8), ('fill', 4)]),
                      ('.flash.text', [(B, 'y.c.obj', '.text.h', 0x40)])])
    imgs.autosyms(img)
    img.crt = [('f', ['esp-idf/a/liba.a(x.c.obj)', 'esp-idf/b/libb.a(y.c.obj)'])]
    return img


COMMANDS = {
    'table': (), 'archives': ('--archives',), 'files-csv': ('--files', '--format', 'csv'),
    'details': ('--archive-details', 'liba.a'), 'tree': ('--format', 'tree', '--archives'),
    'json': ('--format', 'json2'), 'json-files': ('--format', 'json2', '--files'), 'raw': ('--format', 'raw'),
    'diff': ('--diff', 'REF'), 'diff-csv': ('--diff', 'REF', '--archives', '--format', 'csv', '--unify'),
    'dot': ('--archive-dependencies', '--format', 'dot'), 'deps': ('--archive-dependencies', '--dep-symbols'), 'csv': ('--format', 'csv'),
    'lto': ('--lto', '--files', '--format', 'csv'), 'deps-tree': ('--archive-dependencies', '--format', 'tree', '--dep-symbols'),
    'diff-tree': ('--diff', 'REF', '--format', 'tree', '--files', '--show-unchanged'),
}


class Proj:
    """Project directories of this worker (created once)."""
    cur = ref = None

    @classmethod
    def get(cls):
        if cls.cur is None or not cls.cur.startswith(sut.WDIR):
            cls.cur = proj.put(os.path.join(sut.WDIR, 'cur'), tiny(), elf=True)
            cls.ref = proj.put(os.path.join(sut.WDIR, 'ref'), tiny(7), elf=True)
        return cls.cur, cls.ref


def argv(cmd):
    cur, ref = Proj.get()
    return [ref if a == 'REF' else a for a in COMMANDS[cmd]], cur


# ---------------------------------------------------------------- fault injection


class Injector:
    """Raises an exception at the k-th event; k is None: only counts.  Remembers the function of the package that
    opened the output file for writing: once it is open, a fault in that very function, its caller or a
    helper of the same source file called by them is a failing write."""
    current = None
    mine = {}

    def __init__(self, mode, k, exc, out=None):
        self.mode, self.k, self.exc, self.n, self.where, self.out = mode, k, exc, 0, None, out
        self.opener, self.writing = (), False
        self.seq = []

    @classmethod
    def in_package(cls, fn):
        if fn not in cls.mine:
            pkg = os.path.join(os.path.realpath(sut.REPO), 'esp_idf_size') + os.sep
            cls.mine[fn] = os.path.realpath(fn).startswith(pkg)
        return cls.mine[fn]

    def hit(self, frame):
        self.n += 1
        if self.k is None:
            self.seq.append((frame.f_code.co_filename, frame.f_lineno))
        if self.n - 1 == self.k:
            self.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}'
            # the write itself: the opening function, its caller or a helper of the same source file called by them
            f = frame
            while f is not None and f.f_code not in self.opener:
                f = f.f_back
            self.writing = f is not None and frame.f_code.co_filename == f.f_code.co_filename
            sys.settrace(None)
            raise self.exc

    def local(self, frame, event, _arg):
        if event == 'line' and self.where is None:
            self.hit(frame)
        return self.local

    def glob(self, frame, event, _arg):
        if self.where is not None:
            return None
        fn = frame.f_code.co_filename
        if self.mode == 'lines':
            if self.in_package(fn):
                return self.local
        elif '/rich/' in fn or '/esp_pylib/' in fn:
            self.hit(frame)
        return None

    def run(self, args):
        global _hooked
        if not _hooked:
            _hooked = True
            sys.addaudithook(_audit)
        Injector.current = self
        sys.settrace(self.glob)
        try:
            return sut.cli(*args)
        finally:
            sys.settrace(None)
            Injector.current = None


_hooked = False


def _audit(event, args):
    inj = Injector.current
    if inj is None or event != 'open' or inj.opener or inj.out is None:
        return
    path, mode, flags = args
    if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR) and str(path).startswith(os.path.dirname(inj.out)):
        f = sys._getframe(1)
        while f is not None and not inj.in_package(f.f_code.co_filename):
            f = f.f_back
        if f is not None:
            g = f.f_back
            inj.opener = (f.f_code,) + ((g.f_code,) if g and g.f_code.co_filename == f.f_code.co_filename else ())


def listing(d):
    return sorted(os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs)


def check_fault(sc):
    cmd, mode, k, kind, existing = sc
    args, cur = argv(cmd)
    exc = {'interrupt': KeyboardInterrupt, 'error': RuntimeError}[kind]('injected')
    d = os.path.join(sut.WDIR, 'outdir')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'out.txt')
    want = reference(cmd)
    # always a new file: a file object left open by an earlier fault must not write into it
    if os.path.lexists(out):
        os.unlink(out)
    if existing:
        with open(out, 'w') as f:
            f.write(OLD)
    inj = Injector(mode, k, exc, out)
    r = inj.run(list(args) + ['-o', out, cur])
    have = None
    if os.path.exists(out):
        with open(out, newline='') as f:
            have = f.read()
    before = OLD if existing else None
    if r.rc == 0:
        # a fault while gathering optional data may be survived with a different, complete report
        ok = have == want or (inj.where is not None and have not in (None, '', OLD)
                              and not inj.where.startswith(('main', 'format_', 'log')))
    else:
        ok = have in (before, want) or (mode == 'lines' and inj.writing)
    if not ok:
        raise Violation(f'{cmd} {args}: {kind} at {inj.where} (event {k}, {mode}): exit status {r.rc}, output file is '
                        f'{"missing" if have is None else repr(have[:300])} (was {"present" if existing else "absent"})'
                        f'\n{r}')
    return (inj.where is None, r.rc, have == want)


_ref = {}


def reference(cmd):
    """What the same command prints to standard output."""
    key = (cmd, sut.WDIR)
    if key not in _ref:
        args, cur = argv(cmd)
        r = sut.cli(*args, cur)
        if r.rc or r.exc:
            raise Violation(f'{cmd}: plain run fails: {r}')
        _ref[key] = r.out
    return _ref[key]


def points(cmd, mode, occurrences):
    """Fault points of a command (after a warm-up run): all events, or the first and last of each line."""
    args, cur = argv(cmd)
    out = os.path.join(sut.WDIR, 'count.txt')
    for _ in range(2):
        inj = Injector(mode, None, None)
        inj.run(list(args) + ['-o', out, cur])
    if occurrences == 'all':
        return inj.n, range(inj.n + 1)
    at = {}
    for i, loc in enumerate(inj.seq):
        at.setdefault(loc, []).append(i)
    return inj.n, sorted({i for v in at.values() for i in v[:1] + v[-1:]}) + [inj.n]


def fault_space(name, cmds, mode, occurrences, existing, bounds):
    sut.worker_init('plan')
    pts = {c: points(c, mode, occurrences) for c in cmds}
    total, used = sum(n for n, _ in pts.values()), sum(len(p) for _, p in pts.values())

    def build(c):
        cmd = c.choose('command', cmds)
        k = c.choose('fault point', pts[cmd][1])
        return (cmd, mode, k, c.choose('fault', ('interrupt', 'error')), c.choose('existing file', existing))
    return Space(name, build, check_fault, bounds=f'{bounds}: {total} {mode} events of {len(cmds)} commands, {used} fault '
                 'points: ' + ('every event' if occurrences == 'all' else
                               'the first and last execution of every line or called function'))


# ---------------------------------------------------------------- failing inputs


def broken_text(kind):
    t = model.render(tiny())
    if kind == 'empty':
        return ''
    if kind == 'no memory configuration':
        return t.replace('Memory Configuration', 'Memory Konfiguration')
    if kind == 'no linker script':
        return t.replace('Linker script and memory map', 'nothing')
    if kind == 'bad number':
        return t.replace(' .text.f        0x40080000', ' .text.f        0xgggggggg')
    if kind == 'unknown chip':
        return t.replace('IDF_TARGET_ESP32', 'IDF_TARGET_ESP99')
    if kind == 'no chip':
        return t.replace('IDF_TARGET_ESP32', 'IDF')
    raise KeyError(kind)


BROKEN = ('empty', 'no memory configuration', 'no linker script', 'bad number', 'unknown chip', 'no chip')
FAILS = [('missing map',), ('directory',), ('binary',)] + [('map', k) for k in BROKEN] + [('ref', k) for k in BROKEN] + [
    ('ref missing',), ('no such archive',), ('sort 0',), ('sort 99',), ('sort name',), ('deps without elf',),
    ('deps without crt',), ('contradiction',), ('bad option',), ('bad format',)]
FMTS = ('table', 'csv', 'json2', 'raw', 'tree', 'dot')


def check_fail(sc):
    fail, fmt, where, existing = sc
    d = os.path.join(sut.WDIR, 'f')
    shutil.rmtree(d, ignore_errors=True)
    img = tiny()
    text = None
    elf = True
    extra = []
    if fail[0] == 'map':
        text = broken_text(fail[1])
        if 'chip' in fail[1]:
            elf = False
    if fail[0] == 'deps without elf':
        elf, extra = False, ['--archive-dependencies']
    if fail[0] == 'deps without crt':
        img.crt, extra = [], ['--archive-dependencies']
    if fail[0] == 'contradiction':
        img.symbols.append({'name': 'bad', 'addr': img.symbols[0]['addr'], 'size': 0x999, 'type': 'func'})
        extra = ['--archive-details', 'liba.a']
    if fail[0] == 'no such archive':
        if fmt not in ('table', 'csv', 'json2'):
            fmt = 'table'
        extra = ['--archive-details', 'libnone.a']
    if fail[0].startswith('sort'):
        if fmt not in ('table', 'csv'):
            fmt = 'csv'
        extra = ['--sort', {'sort 0': '0', 'sort 99': '99', 'sort name': 'No such'}[fail[0]], '--archives']
    if fail[0] == 'bad option':
        extra = ['--no-such-option']
    if fmt == 'dot' and fail[0] == 'contradiction':
        fmt = 'raw'
    if fmt == 'dot' and '--archive-dependencies' not in extra:
        extra = extra + ['--archive-dependencies']
    mp = proj.put(d, img, elf=elf, text=text)
    if fail[0] == 'missing map':
        os.unlink(mp)
    elif fail[0] == 'directory':
        os.unlink(mp)
        os.mkdir(mp)
    elif fail[0] == 'binary':
        with open(mp, 'wb') as f:
            f.write(b'\xff\xfe\x00' * 100)
    if fail[0] == 'ref' or fail[0] == 'ref missing':
        if fmt == 'dot':
            fmt = 'json2'   # dot is a dependency report, which ignores the reference
        rd = os.path.join(sut.WDIR, 'fr')
        rp = proj.put(rd, tiny(), text=broken_text(fail[1]) if fail[0] == 'ref' else None)
        if fail[0] == 'ref missing':
            os.unlink(rp)
        extra = ['--diff', rp]
    od = os.path.join(sut.WDIR, 'od')
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    out = os.path.join(od, *where.split('/'))
    if existing:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out, 'w') as f:
            f.write(OLD)
    before = listing(od)
    r = sut.cli('--format', 'nope' if fail[0] == 'bad format' else fmt, *extra, '-o', out, mp)
    errs = []
    if r.exc is not None:
        errs.append('ends in an unhandled exception')
    if not r.rc:
        errs.append('exit status is zero')
    if listing(od) != before:
        errs.append(f'files before {before} and after {listing(od)}')
    if existing and open(out).read() != OLD:
        errs.append('the existing output file was changed')
    if not r.err.strip():
        errs.append('no diagnostic')
    if errs:
        raise Violation(f'{sc}: ' + '; '.join(errs) + f'\n{r}')
    return (r.rc, r.err)


def fail_space():
    def build(c):
        return (c.choose('failure', FAILS), c.choose('format', FMTS), c.choose('path', ('out.txt', 'a/b/out.txt')),
                c.flag('existing'))
    return Space('failing-runs', build, check_fail, bounds=f'{len(FAILS)} failing inputs x 6 formats x existing or new file '
                                                            f'x nested path')


# ---------------------------------------------------------------- success: file equals stdout

OPTS = ((), ('--no-abbrev',), ('--unify',), ('--no-color',), ('--force-terminal',), ('--show-unused', '--use-flash-size'),
        ('--sort-reverse',), ('-F', 'lib*'))


def check_same(sc):
    cmd, opts, path, existing, env = sc
    args, cur = argv(cmd)
    od = os.path.join(sut.WDIR, 'od')
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    plain = [o for o in opts if o != '--force-terminal']
    a = sut.cli(*args, *plain, cur)
    out = os.path.join(od, *path.split('/'))
    if existing is not None:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if path == 'link.txt':
            os.symlink('target.txt', out)
        with open(out, 'w') as f:
            f.write(existing)
    cwd = os.getcwd()
    os.environ['TERM'] = 'xterm-256color' if env else 'dumb'
    try:
        os.chdir(od)
        b = sut.cli(*args, *opts, '-o', path if not path.startswith('a') else out, cur)
    finally:
        os.chdir(cwd)
        os.environ['TERM'] = 'dumb'
    errs = []
    if a.rc or b.rc or a.exc or b.exc:
        errs.append('a run failed')
    elif b.out:
        errs.append(f'standard output is not empty: {b.out[:200]!r}')
    if not errs:
        if not os.path.exists(out):
            errs.append('no output file')
        else:
            with open(out, newline='', encoding='utf-8') as f:
                have = f.read()
            if have != a.out:
                errs.append(f'file differs from standard output\n--- file\n{have}\n--- stdout\n{a.out}')
            if '\x1b' in have:
                errs.append('terminal control sequences in the file')
        if [x for x in listing(od) if not x.endswith('target.txt')] != [out]:
            errs.append(f'files {listing(od)}')
        if ea(a.err) != ea(b.err):
            errs.append(f'diagnostics differ\n{a.err}\n{b.err}')
    if errs:
        raise Violation(f'{sc}: ' + '; '.join(errs) + f'\n{b}')
    return a.out


def ea(t):
    import re
    return re.sub(r'\x1b\[[0-9;]*m', '', t)


def same_space(full):
    def build(c):
        return (c.choose('command', tuple(COMMANDS)), c.choose('options', OPTS), c.choose('path', ('out.txt', 'a/b/c.txt', 'link.txt')),
                c.choose('existing', (None, OLD, '')), c.flag('colour terminal'))
    return Space('file-equals-stdout', build, check_same, budget=None if full else 3,
                 bounds='16 commands x 8 option sets x path x existing contents' + ('' if full else ' (<=3 deviations)'))


# ---------------------------------------------------------------- failing writes


def check_write(sc):
    cmd, how = sc
    args, cur = argv(cmd)
    od = os.path.join(sut.WDIR, 'od')
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    keep = os.path.join(od, 'keep')
    with open(keep, 'w') as f:
        f.write(OLD)
    if how == 'directory':
        out = os.path.join(od, 'dir')
        os.makedirs(out)
    elif how == 'parent is a file':
        out = os.path.join(keep, 'x.txt')
    elif how == 'parent of parent is a file':
        out = os.path.join(keep, 'y', 'x.txt')
    elif how == 'name too long':
        out = os.path.join(od, 'n' * 300)
    elif how == 'loop':
        out = os.path.join(od, 'loop')
        os.symlink('loop', out)
    elif how.startswith('no space'):
        out = os.path.join(od, 'out.txt')
    elif how == 'dangling link':
        out = os.path.join(od, 'link')
        os.symlink(os.path.join(od, 'nowhere', 'x'), out)
    # a file size limit stands in for a full disk: nothing outside of the scratch directory is involved
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    if how.startswith('no space'):
        resource.setrlimit(resource.RLIMIT_FSIZE, (int(how.split()[-1]), hard))
    try:
        r = sut.cli(*args, '-o', out, cur)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    errs = []
    if r.exc is not None:
        errs.append('unhandled exception')
    written = False
    if not r.rc and os.path.isfile(out):
        # it may be possible to write after all, e.g. by replacing a link
        with open(out, newline='') as f:
            written = f.read() == reference(cmd)
    if not r.rc and not written:
        errs.append('exit status is zero')
    if not written and out not in r.err:
        errs.append('diagnostic does not name the file')
    if r.out:
        errs.append('report on standard output')
    if open(keep).read() != OLD:
        errs.append('another file was changed')
    if errs:
        raise Violation(f'{sc}: ' + '; '.join(errs) + f'\n{r}')
    return r.err


def write_space():
    hows = ['directory', 'parent is a file', 'parent of parent is a file', 'name too long', 'loop', 'dangling link',
            'no space after 0', 'no space after 1', 'no space after 50']

    def build(c):
        return (c.choose('command', tuple(COMMANDS)), c.choose('write failure', hows))
    return Space('failing-writes', build, check_write, bounds='16 commands x ways in which the write itself fails')


# ---------------------------------------------------------------- encodings

ENV = {'ascii': {'PYTHONIOENCODING': '', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'LC_ALL': 'C'},
       'utf-8': {'PYTHONIOENCODING': '', 'PYTHONUTF8': '1', 'LC_ALL': 'C.utf8'}}


def check_encoding(sc):
    """Real processes: in a locale that cannot represent a name the file and standard output still agree."""
    cmd, enc, name = sc
    a, b = f'esp-idf/a/lib{name}.a', f'esp-idf/{name}/libb.a'
    d = os.path.join(sut.WDIR, 'enc')
    mps = []
    for k in (0, 7):
        img = imgs.image([('.iram0.text', [(a, f'{name}.c.obj', f'.text.{name}', 0x10 + k), (b, 'y.c.obj', '.text.g', 0x20)]),
                          ('.flash.text', [(b, 'y.c.obj', '.text.h', 0x40)])])
        imgs.autosyms(img)
        img.crt = [(name, [f'{a}({name}.c.obj)', f'{b}(y.c.obj)']), ('h', [f'{b}(y.c.obj)', f'{a}({name}.c.obj)'])]
        mps.append(proj.put(os.path.join(d, str(k)), img, elf=True))
    args = [{'REF': mps[1], 'liba.a': f'lib{name}.a'}.get(x, x) for x in COMMANDS[cmd]]
    if cmd == 'details' and enc == 'ascii':
        args[1] = 'libb.a'            # the name given on the command line would be bytes
    if enc == 'utf-8':
        args.append('--no-abbrev') if '--unify' not in args else None
    out = os.path.join(d, 'out.txt')
    r = sut.cli_subprocess([*args, mps[0]], env=ENV[enc])
    f = sut.cli_subprocess([*args, '-o', out, mps[0]], env=ENV[enc])
    errs = [f'exit status {x.rc}' for x in (r, f) if x.rc] + ['traceback' for x in (r, f) if 'Traceback' in x.err]
    if not errs:
        with open(out, newline='', encoding=enc) as fd:
            have = fd.read()
        if have != r.out or f.out:
            errs.append(f'the file differs from standard output\n{have}')
        if cmd not in ('table', 'diff', 'csv', 'json', 'details'):
            forms = {name, name.encode('ascii', 'backslashreplace').decode(), reports_escape(name)}
            if not any(x in have for x in forms):
                errs.append(f'{name!r} is not shown')
    if errs:
        raise Violation(f'{sc}: ' + '; '.join(errs) + f'\n{r!r}\n{f!r}')
    return r.out


def reports_escape(name):
    import json
    return json.dumps(name)[1:-1]


def encoding_space():
    def build(c):
        return (c.choose('command', tuple(COMMANDS)), c.choose('encoding', tuple(ENV)), c.choose('name', ('\xe9', 'x\U0001f600')))
    return Space('encodings', build, check_encoding, timeout=60, bounds='16 commands x ASCII and UTF-8 locale x 2 names (processes)')


def spaces(tier):
    allc = tuple(COMMANDS)
    if tier == 'quick':
        return [same_space(False), fail_space(), write_space(), encoding_space(),
                fault_space('faults-lines', allc, 'lines', 'each line', (True,), 'package lines'),
                fault_space('faults-lines-new-file', ('csv', 'dot'), 'lines', 'each line', (False,), 'package lines'),
                fault_space('faults-calls', allc, 'calls', 'each line', (True,), 'calls into rich/esp_pylib')]
    return [same_space(True), fail_space(), write_space(), encoding_space(),
            fault_space('faults-lines', allc, 'lines', 'all', (True, False), 'package lines'),
            fault_space('faults-calls', allc, 'calls', 'all', (True,), 'calls into rich/esp_pylib')]
