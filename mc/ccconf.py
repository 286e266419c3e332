"""Conformance of the producer model of C19 with a real tool chain: every configuration of a small project is compiled and linked with
gcc, and what the ELF and DWARF reader says is compared with readelf and with the source file each symbol is known to be from."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import sut
from .core import Prune, Space, Violation

# Every function and variable with static storage has the source file in its name.
SOURCES = {
    'a.c': '''
struct s { int a; char b[3]; struct s *n; }; union u { int i; float f; struct { unsigned x:3; } bf; };
enum e { A, B = -3, C = 1000000 };
struct s s_from_a; static int st_from_a = 5; const char *str_from_a = "abc"; enum e ev_from_a; union u un_from_a;
const int ro_from_a[3] = {1, 2, 3}; __attribute__((weak)) int weak_from_a; char one_from_a = 1;
extern int other_from_b(int); extern int zero_from_b[];
static inline int inl_from_a(int x) { int i, r = 0; for (i = 0; i < x; i++) r += other_from_b(i); return r; }
static __attribute__((noinline)) int clone_from_a(int k, int x) { return k == 3 ? zero_from_b[x] : other_from_b(k + x); }
__attribute__((used)) int func_from_a(int n) { static int local_from_a = 3; local_from_a += st_from_a; { static short in_from_a; in_from_a++; }
  return inl_from_a(n) + local_from_a + clone_from_a(3, n) + ro_from_a[n & 1]; }
typedef int (*fp)(int, ...); __attribute__((used)) fp table_from_a[] = {(fp) func_from_a, (fp) other_from_b};
#ifdef CXX
extern int cxx_from_c(int);
#else
#define cxx_from_c(x) (x)
#endif
void start_from_a(void) { s_from_a.a = func_from_a(cxx_from_c(3)); s_from_a.n = &s_from_a; ev_from_a = C; un_from_a.bf.x = *str_from_a; }
''',
    'b.c': '''
long long big_from_b = 0x123456789abcdefLL; float f_from_b = 1.5f; double d_from_b = -2.25;
int zero_from_b[100]; static unsigned char hidden_from_b[7] = {9};
__attribute__((noinline)) int other_from_b(int x) { volatile int arr[4]; arr[x & 3] = x + hidden_from_b[x & 7]; hidden_from_b[0] = x; return arr[1] + zero_from_b[x]; }
__attribute__((weak, used)) void unused_from_b(void) { big_from_b++; f_from_b *= (float) d_from_b; }
''',
    'c.cpp': '''
namespace outer { namespace { int anon_from_c = 4; }
template <class T, int N> struct box { T v[N]; static int count_from_c; __attribute__((noinline)) int get_from_c(int i) { return count_from_c++ + v[i % N]; } };
template <class T, int N> int box<T, N>::count_from_c = 7;
class base { public: int k; static long shared_from_c; int sum_from_c(int &r, int &&q) const; protected: int operator()(int x) { return x; } };
long base::shared_from_c = 11; int base::sum_from_c(int &r, int &&q) const { auto l = [&](int z) { return z + k; }; return l(r) + q; } }
constexpr int fixed_from_c[2] = {1, 2}; thread_local_free
extern "C" __attribute__((noinline)) int cxx_from_c(int x) { outer::box<int, 4> b{{1, 2, 3, 4}}; outer::base c; c.k = outer::anon_from_c++;
  return b.get_from_c(x) + c.sum_from_c(x, 5) + outer::base::shared_from_c + fixed_from_c[x & 1]; }
'''.replace('thread_local_free', ''),
}
TAGS = {'array_type': 1, 'class_type': 2, 'enumeration_type': 4, 'formal_parameter': 5, 'lexical_block': 0xb, 'member': 0xd, 'pointer_type': 0xf,
        'reference_type': 0x10, 'compile_unit': 0x11, 'structure_type': 0x13, 'subroutine_type': 0x15, 'typedef': 0x16, 'union_type': 0x17,
        'inlined_subroutine': 0x1d, 'subrange_type': 0x21, 'base_type': 0x24, 'const_type': 0x26, 'enumerator': 0x28, 'subprogram': 0x2e,
        'variable': 0x34, 'volatile_type': 0x35, 'namespace': 0x39, 'imported_unit': 0x3d, 'type_unit': 0x41}
TYPES = {'NOTYPE': 0, 'OBJECT': 1, 'FUNC': 2, 'SECTION': 3, 'FILE': 4, 'TLS': 6}
BINDS = {'LOCAL': 0, 'GLOBAL': 1, 'WEAK': 2, 'UNIQUE': 10}


class NotBuilt(Exception):
    """The tool chain failed, twice: nothing to compare with."""


def available():
    if not all(shutil.which(t) for t in ('gcc', 'g++', 'gcc-ar', 'readelf', 'as', 'ld')):
        return False
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'x.cpp'), 'w') as f:
            f.write('int f(int x) { return x; }')
        try:
            for bits in ('-m32', '-m64'):
                run('gcc', bits, '-g', '-flto', '-ffreestanding', '-nostdlib', '-static', '-no-pie', '-Wl,-e,0', 'x.cpp', '-o', 'x', cwd=d)
            run('readelf', '-SW', 'x', cwd=d)
        except NotBuilt:
            return False
    return True


def run(*cmd, cwd=None):
    for _ in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env={**os.environ, 'TMPDIR': cwd or sut.WDIR, 'LC_ALL': 'C'})
        if not p.returncode:
            return p.stdout.decode()
    raise NotBuilt(' '.join(cmd) + '\n' + p.stderr.decode())


def unless_not_built(check):
    def chk(sc):
        try:
            return check(sc)
        except NotBuilt as e:
            return f'not built: {e}'
    return chk


def readelf_sections(fn):
    out = []
    for m in re.finditer(r'^ +\[ *(\d+)\] (.{17,}?) (NULL|[A-Z][A-Z_0-9]+) +([0-9a-f]+) [0-9a-f]+ ([0-9a-f]+) ', run('readelf', '-SW', fn), re.M):
        out.append((m[2].strip(), int(m[4], 16), int(m[5], 16)))
    return out


def readelf_symbols(fn):
    out = []
    for line in run('readelf', '-sW', fn).splitlines():
        p = line.split(None, 7)
        if len(p) < 7 or not p[0].rstrip(':').isdigit():
            continue
        ndx = {'UND': 0, 'ABS': 0xfff1, 'COM': 0xfff2}.get(p[6]) if not p[6].isdigit() else int(p[6])
        typ = p[3]
        out.append((p[7] if len(p) > 7 and typ != 'SECTION' else '', int(p[1], 16), int(p[2], 0), TYPES[typ], BINDS[p[4]], ndx))
    return out


def readelf_dies(fn):
    """{offset: (level, tag or None, name, line, byte size, low pc)} of .debug_info"""
    out, cur = {}, None
    text = run('readelf', '--debug-dump=info', fn).split('Contents of the .debug_types')[0]
    for line in text.splitlines():
        m = re.match(r' <([0-9a-f]+)><([0-9a-f]+)>: Abbrev Number: (\d+)(?: \(DW_TAG_(\w+)\))?', line)
        if m:
            cur = None
            if m[3] != '0':
                cur = out[int(m[2], 16)] = [int(m[1], 16), m[4], None, None, None, None]
            continue
        m = re.match(r' +<[0-9a-f]+> +DW_AT_(\w+) *: (.*)', line)
        if m and cur:
            v = re.sub(r'^\((?:indirect|alt indirect|indirect line) string, offset: (?:0x)?[0-9a-f]+\): ', '', m[2]).rstrip('\t ')
            if m[1] == 'name':
                cur[2] = v
            elif m[1] in ('decl_line', 'byte_size', 'low_pc'):
                cur[{'decl_line': 3, 'byte_size': 4, 'low_pc': 5}[m[1]]] = int(re.sub(r'^\(\w+\) ', '', v), 0)
    return out


def check(sc):
    cc, bits, version, d64, opt, how, lang, extra = sc
    d = os.path.join(sut.WDIR, 'cc')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    srcs = ['a.c', 'b.c'] + (['c.cpp'] if lang == 'c++' else [])
    for s in srcs:
        with open(os.path.join(d, s), 'w') as f:
            f.write(SOURCES[s])
    flags = [f'-m{bits}', '-g', f'-gdwarf-{version}', opt, '-ffreestanding', '-fno-pie', '-fno-exceptions', '-fno-rtti', '-fno-stack-protector', '-w',
             *(['-fno-reorder-blocks-and-partition'] if cc == 'gcc' else ['-fno-addrsig']), '-fcommon' if 'common' in extra else '-fno-common', *(['-gdwarf64'] if d64 else []),
             *(['-DCXX'] if lang == 'c++' else []), *(['-flto', '-flto-partition=one'] if how == 'lto' else []), *(x for x in extra if x[0] == '-')]
    for s in srcs:
        run(cc, *flags, '-c', s, '-o', s + '.o', cwd=d)
    run(cc, *flags, '-nostdlib', '-static', '-no-pie', '-Wl,-e,start_from_a,--build-id=none', *(['-Wl,--gc-sections'] if '-ffunction-sections' in extra else []),
        *(s + '.o' for s in srcs), '-o', 'x.elf', cwd=d)
    fn = os.path.join(d, 'x.elf')
    e = sut.elf.Elf(fn)
    got = [(s.name, s.sh_addr, s.sh_size) for s in e.shdrs]
    want = readelf_sections(fn)
    if len(want) < 8 or got != want:
        raise Violation(f'{sc}: sections {got}, readelf has {want}')
    gs = [(s.name if s.type != 3 else '', s.st_value, s.st_size, s.type, s.bind, s.st_shndx) for s in e.symbols]
    ws = readelf_symbols(fn)
    if len(ws) < 10 or gs != ws:
        raise Violation(f'{sc}: symbols differ from readelf: {[x for x in zip(gs, ws) if x[0] != x[1]][:5]} ({len(gs)}, {len(ws)})')
    wd = readelf_dies(fn)
    gd = {}
    for cu in e.CUs:
        for off, x in cu.DIEs.items():
            if x['code']:
                a = x['attrs']
                gd[off] = [x['level'], x['tag'], cu.get_attr_str(a[0x03]) if 0x03 in a else None, *(a[k]['value'] if k in a else None for k in (0x3b, 0x0b, 0x11))]
    if len(wd) < 40 or set(wd) != set(gd):
        raise Violation(f'{sc}: entries at {sorted(set(wd) ^ set(gd))[:10]} differ from readelf')
    for off, w in wd.items():
        g = gd[off]
        if w[1] in TAGS and g[1] != TAGS[w[1]] or g[0] != w[0] or g[2:] != w[2:]:
            raise Violation(f'{sc}: entry at {off:#x} is {g}, readelf has {w}')
    src = {'a': 'a.c', 'b': 'b.c', 'c': 'c.cpp'}
    ga = {a: (s.name, os.path.basename(s.cu_name) if s.cu_name else None) for a, s in e.add_cus_to_symbols().items()}
    wa = {}
    for name, addr, size, typ, _bind, ndx in ws:
        if size and typ in (1, 2) and ndx != 0xfff1:
            m = re.search('_from_([abc])', name)
            wa.setdefault(addr, set()).add((name, src[m[1]] if m else None))
    bad = [(hex(a), ga.get(a), wa.get(a)) for a in sorted(set(ga) | set(wa)) if ga.get(a) not in wa.get(a, ())]
    if bad:
        raise Violation(f'{sc}: source files of symbols: {bad}')
    return (len(ws), len(wd))


GCC_ONLY = (('-fvar-tracking-assignments',), ('-gno-as-loc-support',), ('-fno-merge-debug-strings',))


def space(full):
    def build(c):
        cc = c.choose('compiler', ('gcc', 'clang') if shutil.which('clang') else ('gcc',))
        bits = c.choose('class', (32, 64), free=True)
        version = c.choose('version', (5, 4, 3, 2), free=True)
        how = c.choose('link', ('plain', 'lto'), free=True)
        d64 = c.flag('64-bit DWARF')
        opt = c.choose('optimisation', ('-O0', '-O2', '-Os', '-O1', '-Og', '-O3'))
        lang = c.choose('languages', ('c', 'c++'))
        extra = c.choose('options', ((), ('-fdebug-types-section',), ('-fno-merge-debug-strings',), ('-ffunction-sections', '-fdata-sections'), ('common',),
                                     ('-gstrict-dwarf',), ('-fvar-tracking-assignments', '-ginline-points'), ('-g3',), ('-gno-as-loc-support',)))
        if d64 and version == 2 or extra == ('-fdebug-types-section',) and version < 4:
            raise Prune()
        if cc == 'clang' and (version == 5 or how == 'lto' or d64 and bits == 32 or extra[:1] in GCC_ONLY):
            raise Prune()
        return (cc, bits, version, d64, opt, how, lang, extra)
    return Space('compiled', build, unless_not_built(check), budget=3 if full else 2, bounds='class x DWARF version x link-time optimisation, format, optimisation level, '
                 f'languages and options of gcc with <= {3 if full else 2} deviations; compared with readelf and the known sources')


# ---------------------------------------------------------------- a project with link-time optimisation

SCRIPT = '''
IDF_TARGET_ESP32 = 0;
MEMORY {
  iram0_0_seg (RX) : org = 0x40080000, len = 0x20000
  iram0_2_seg (RX) : org = 0x400D0020, len = 0x32FFE0
  dram0_0_seg (RW) : org = 0x3FFB0000, len = 0x2C200
  drom0_0_seg (R) : org = 0x3F400020, len = 0x3FFFE0
}
SECTIONS {
  .flash.text : { *(.text.startup .text .text.*) } > iram0_2_seg
  .flash.rodata : { *(.rodata .rodata.*) } > drom0_0_seg
  .dram0.data : { *(.data .data.*) } > dram0_0_seg
  .dram0.bss (NOLOAD) : { *(.bss .bss.* COMMON) } > dram0_0_seg
  /DISCARD/ : { *(.eh_frame .note* .comment) }
}
'''


def check_lto(sc):
    version, opt, part, plain, lang, sections, deep = sc
    d = os.path.join(sut.WDIR, 'ltoproj')
    shutil.rmtree(d, ignore_errors=True)
    b = os.path.join(d, 'build')
    os.makedirs(b)
    srcs = {'a': 'a.c', 'b': 'b.c', **({'c': 'c.cpp'} if lang == 'c++' else {})}
    flags = ['-m32', '-g', f'-gdwarf-{version}', opt, '-ffreestanding', '-fno-pie', '-fno-exceptions', '-fno-rtti', '-fno-stack-protector', '-w',
             '-fno-reorder-blocks-and-partition', '-fno-common', *(['-DCXX'] if lang == 'c++' else []),
             *(['-ffunction-sections', '-fdata-sections'] if sections else [])]
    lto = ['-flto', f'-flto-partition={part}']
    comps, archives = {}, {}
    for x, s in srcs.items():
        # with deep directories one component lies in another one's
        comp = os.path.join(d, 'components', 'a' if deep and x == 'b' else '', x)
        os.makedirs(comp)
        ar = f'esp-idf/{x}/lib{x}.a'
        os.makedirs(os.path.join(b, 'esp-idf', x))
        with open(os.path.join(comp, s), 'w') as f:
            f.write(SOURCES[s])
        run('gcc', *flags, *([] if x in plain else lto), '-c', os.path.join(comp, s), '-o', f'esp-idf/{x}/{s}.obj', cwd=b)
        run('gcc-ar', 'rcs', ar, f'esp-idf/{x}/{s}.obj', cwd=b)
        comps[x] = {'dir': comp, 'file': os.path.join(b, ar)}
        archives[x] = ar
    with open(os.path.join(d, 'x.ld'), 'w') as f:
        f.write(SCRIPT)
    run('gcc', *flags, *lto, '-nostdlib', '-static', '-no-pie', '-Wl,-e,start_from_a,-u,start_from_a,--build-id=none,--gc-sections,-Map=app.map,--cref',
        '-T', '../x.ld', *archives.values(), *archives.values(), '-o', 'app.elf', cwd=b)
    with open(os.path.join(b, 'project_description.json'), 'w') as f:
        json.dump({'app_elf': 'app.elf', 'target': 'esp32', 'build_dir': b, 'project_path': d, 'build_component_info': comps}, f)
    fn = os.path.join(b, 'app.elf')
    want, seen = {}, set()
    for name, addr, size, typ, _bind, ndx in readelf_symbols(fn):
        m = re.search('_from_([abc])', name)
        if m and size and typ in (1, 2) and ndx != 0xfff1 and m[1] not in plain and addr not in seen:
            seen.add(addr)
            want[archives[m[1]]] = want.get(archives[m[1]], 0) + size
    mp = os.path.join(b, 'app.map')

    def totals(use):
        m, err = sut.get(mp, load_symbols=False, use_dwarf=use)
        out, secs = {}, {}
        for t in m['memory_types'].values():
            for sn, s in t['sections'].items():
                secs[sn] = s['size']
                for an, a in s['archives'].items():
                    for on, o in a['object_files'].items():
                        if o['size']:
                            out[an, on] = out.get((an, on), 0) + o['size']
        return out, secs, err
    off, secs0, err0 = totals(False)
    on, secs1, err1 = totals(True)
    if err0 or err1:
        raise Violation(f'{sc}: {err0}{err1}')
    real = {n: z for n, _a, z in readelf_sections(fn)}
    if secs0 != secs1 or any(real.get(n, 0) != z for n, z in secs0.items()):
        raise Violation(f'{sc}: sections {secs0}, {secs1}, readelf has {real}')
    exe = sum(v for (a, _o), v in off.items() if a == '(exe)')
    exp = {(a, srcs[x]): want[a] for x, a in archives.items() if a in want}
    exp.update({k: v for k, v in off.items() if k[0] != '(exe)'})
    have = {k: v for k, v in on.items() if k[0] != '(exe)'}
    if not want or have != exp:
        raise Violation(f'{sc}: attributed {have}, expected {exp}')
    if sum(v for (a, _o), v in on.items() if a == '(exe)') != exe - sum(want.values()):
        raise Violation(f'{sc}: {on}, without attribution {off}: bytes lost')
    return repr(sorted(have.items()))


def lto_space(full):
    def build(c):
        version = c.choose('version', (5, 4, 3, 2), free=True)
        plain = c.choose('without link-time optimisation', ('', 'b', 'a'), free=True)
        sc = (version, c.choose('optimisation', ('-O2', '-Os', '-O0', '-Og', '-O3', '-O1')), c.choose('partitions', ('one', 'none', '1to1', 'balanced', 'max')),
              plain, c.choose('languages', ('c', 'c++')), c.flag('sections'), c.flag('nested components'))
        return sc
    return Space('compiled', build, unless_not_built(check_lto), budget=3 if full else 2, bounds='projects built by gcc -flto: DWARF version x components without LTO, '
                 f'optimisation level, partitions, language, sections, nested components with <= {3 if full else 2} deviations')
