"""Access to the system under test: the Python sources in /repo's working tree.

Only public entry points are used: the command line (click command object or ``python -m esp_idf_size``),
``memorymap.get/diff/unify``, ``mapfile.MapFile`` and ``elf.Elf``.  Byte code is never taken from or written
to /repo (private pycache prefix), so an edit can never be missed.
"""
import contextlib
import copy
import io
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('MC_REPO', '/repo')
SCRATCH = None


def _scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


def setup():
    """Create the scratch directory and import the package from the working tree."""
    global SCRATCH, main, memorymap, mapfile, elf
    SCRATCH = tempfile.mkdtemp(prefix='mc-', dir=_scratch_root())
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')
    for v in ('ESP_IDF_SIZE_FORCE_TERMINAL', 'FORCE_COLOR', 'NO_COLOR', 'COLUMNS', 'TTY_COMPATIBLE', 'TTY_INTERACTIVE'):
        os.environ.pop(v, None)
    os.environ['TERM'] = 'dumb'
    sys.path.insert(0, REPO)
    import esp_idf_size
    assert os.path.dirname(os.path.dirname(os.path.abspath(esp_idf_size.__file__))) == os.path.abspath(REPO), \
        esp_idf_size.__file__
    import esp_idf_size.elf as elf_
    import esp_idf_size.main as main_
    import esp_idf_size.mapfile as mapfile_
    import esp_idf_size.memorymap as memorymap_
    main, memorymap, mapfile, elf = main_, memorymap_, mapfile_, elf_
    _memoise_yaml()


def _memoise_yaml():
    # Parsing the chip yaml dominates the run time of a library call.  The parsed value is cached by file
    # *content* and deep-copied for every caller, so the code under test cannot observe the difference.
    import yaml
    real = yaml.safe_load
    cache = {}

    def safe_load(stream):
        data = stream.read() if hasattr(stream, 'read') else stream
        if data not in cache:
            cache[data] = real(data)
        return copy.deepcopy(cache[data])

    yaml.safe_load = safe_load


def teardown():
    if SCRATCH and os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH, ignore_errors=True)


def worker_init(rank):
    """Every worker process has its own directory."""
    global WDIR
    WDIR = os.path.join(SCRATCH, f'w{rank}')
    os.makedirs(WDIR, exist_ok=True)
    os.chdir(WDIR)


WDIR = None


class TTYLess(io.StringIO):
    encoding = 'utf-8'


class Result:
    __slots__ = ('rc', 'out', 'err', 'exc')

    def __init__(self, rc, out, err, exc):
        self.rc, self.out, self.err, self.exc = rc, out, err, exc

    def __repr__(self):
        return f'rc={self.rc} exc={self.exc!r}\n--- stdout\n{self.out}\n--- stderr\n{self.err}'


def cli(*args):
    """Run the command line in this process, as ``python -m esp_idf_size ARGS`` would."""
    out, err = TTYLess(), TTYLess()
    rc, exc = 0, None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            main.main.main(args=[str(a) for a in args], prog_name='esp_idf_size', standalone_mode=True)
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception as e:  # unhandled exception: python would print a traceback and exit with 1
            rc, exc = 1, e
    return Result(rc, out.getvalue(), err.getvalue(), exc)


def cli_subprocess(args, cwd=None, env=None, timeout=60, hashseed='0'):
    e = dict(os.environ)
    e.update({'PYTHONPATH': REPO, 'PYTHONPYCACHEPREFIX': os.path.join(SCRATCH, 'pyc-sub'), 'PYTHONHASHSEED': hashseed,
              'PYTHONIOENCODING': 'utf-8'})
    if env:
        e.update(env)
    p = subprocess.run([sys.executable, '-m', 'esp_idf_size'] + [str(a) for a in args], cwd=cwd or WDIR, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return Result(p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), None)


def get(path, *args, **kw):
    """memorymap.get with its diagnostics captured; returns (map, stderr text)."""
    out, err = TTYLess(), TTYLess()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        m = memorymap.get(path, *args, **kw)
    return m, err.getvalue() + out.getvalue()


def quietly(fn, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*args, **kw)
