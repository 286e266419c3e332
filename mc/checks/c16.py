"""C16: malformed input.  Fault enumeration over the input files: every mutation of every line, token and (thorough: every
pair of lines), every truncation point, every corrupted byte of the ELF and every type confusion of the JSON files."""
import copy
import json
import os
import shutil

from .. import elfgen, imgs, model, proj, reports, sut
from ..core import Space, Violation

LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['files are readable or missing as a whole; the process runs as root, so permission errors are represented by '
               'directories, dangling links and missing files',
               'a mutation that leaves a well formed input may change the report; only its shape is then checked']

A, B = 'esp-idf/a/liba.a', 'esp-idf/b b/libb.a'


def tiny(k=0, crt=True):
    img = imgs.image([('.iram0.text', [(A, 'x.c.obj', '.text.f', 0x10 + k), (B, 'y.c.obj', '.text.a_rather_long_name', 0x20),
                                       (None, 'main.o', '.text.m', 8)]),
                      ('.dram0.data', [(A, 'x.c.obj', '.data.d', 0x8), ('fill', 4), (B, 'y.c.obj', '.data.e', 4)]),
                      ('.dram0.bss', [(A, 'x.c.obj', 'COMMON', 0x20)]),
                      ('.flash.rodata_noload_x', [(A, 'x.c.obj', '.rodata.long_section_name', 0x30)]),
                      ('.flash.text', [(B, 'y.c.obj', '.text.h', 0x40)])])
    for o in img.outs:
        if o.name == '.dram0.data':
            lay = model.Layout('x', 0)
            lay.out, lay.dot = o, o.addr + o.size
            lay.data('LONG')
    imgs.autosyms(img)
    img.symbols.append(dict(img.symbols[0], name='mark', size=0))
    if crt:
        img.crt = [('f', [f'{A}(x.c.obj)', f'{B}(y.c.obj)', 'main.o']), ('h', [f'{B}(y.c.obj)', f'{A}(x.c.obj)'])]
    return img


def lines(crt=True):
    return model.render(tiny(0, crt)).split('\n')


MODES = {
    'table': (), 'raw': ('--format', 'raw'), 'deps': ('--archive-dependencies', '--format', 'csv', '--dep-symbols'),
    'details': ('--archive-details', 'liba.a', '--format', 'json2'), 'files': ('--files', '--format', 'csv'),
    'tree': ('--format', 'tree', '--lto', '--archive-details', 'liba.a'), 'dot': ('--archive-dependencies', '--format', 'dot'),
    'ref': ('--diff', 'REF', '--format', 'json2'), 'json': ('--format', 'json2', '--archives', '--lto'),
}


def shape(mode, r):
    """A report that was produced must be a report."""
    if mode in ('raw', 'details', 'ref', 'json'):
        json.loads(r.out)
    elif mode in ('files', 'deps'):
        rows = reports.csv_table(r.out)[1] if False else list(__import__('csv').reader(r.out.splitlines()))
        if len({len(x) for x in rows if x}) > 2:   # title line and table
            raise Violation(f'ragged CSV\n{r}')
    elif mode == 'dot':
        if not r.out.lstrip().startswith('digraph') or not r.out.rstrip().endswith('}'):
            raise Violation(f'not a graph\n{r}')
    elif not r.out.strip():
        raise Violation(f'empty report\n{r}')


def judge(what, mode, r, reject=False, accept=False):
    errs = []
    if r.exc is not None:
        errs.append(f'unhandled exception {r.exc!r}')
    if 'Traceback' in r.err:
        errs.append('traceback printed')
    if r.rc == 0:
        if reject:
            errs.append('accepted, must be rejected')
        elif not errs:
            shape(mode, r)
    else:
        if accept:
            errs.append('rejected, must be accepted')
        if not r.err.strip():
            errs.append('no diagnostic')
        if r.out.strip():
            errs.append('failed after printing a report')
    if errs:
        raise Violation(f'{what} [{mode}]: ' + '; '.join(errs) + f'\n{r}')
    return (r.rc, r.err[-200:] if r.rc else r.out)


class Dirs:
    base = None

    @classmethod
    def get(cls):
        """(directory with the project whose map is rewritten for each case, intact project)"""
        if cls.base is None or not cls.base.startswith(sut.WDIR):
            cls.base = os.path.join(sut.WDIR, 'm')
            proj.put(cls.base, tiny(), elf=True, dwarf=dwarf)
            proj.put(os.path.join(sut.WDIR, 'good'), tiny(3), elf=True, dwarf=dwarf)
        return cls.base, os.path.join(sut.WDIR, 'good', 'app.map')


def dwarf(w):
    d = elfgen.Dwarf(w, 4)
    img = tiny()
    kids = []
    for s in img.symbols:
        raw = d.addr(s['addr'])
        if s['type'] == 'func':
            kids.append((0x2e, [(0x03, 0x08, s['name'].encode() + b'\0'), (0x11, 0x01, raw)], None))
        else:
            kids.append((0x34, [(0x03, 0x0e, d.strp(s['name'])), (0x02, 0x18, elfgen.uleb(1 + len(raw)) + b'\x03' + raw)],
                         None))
    d.unit((0x11, [(0x03, 0x08, b'/p/main/main.c\0'), (0x1b, 0x0e, d.strp('/p'))], kids))
    d.attach()


def run_map(text, mode):
    base, good = Dirs.get()
    mp = os.path.join(base, 'app.map')
    with open(mp, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('utf-8', 'surrogateescape'))
    if mode == 'ref':
        return sut.cli('--diff', mp, '--format', 'json2', good)
    return sut.cli(*MODES[mode], mp)


def run_lib(what, text):
    base, _ = Dirs.get()
    mp = os.path.join(base, 'app.map')
    with open(mp, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('utf-8', 'surrogateescape'))
    try:
        m, _err = sut.get(mp, load_symbols=True)
    except sut.memorymap.MemMapException as e:
        return ('rejected', str(e))
    except Exception as e:
        raise Violation(f'{what}: memorymap.get raises {e!r}')
    if not isinstance(m, dict):
        raise Violation(f'{what}: memorymap.get returns {m!r}')
    return 'accepted'


# ---------------------------------------------------------------- link map: lines

JUNK = ['', ' ', 'garbage', '.', ' .', '.x', ' .x', ' COMMON', '\x00\x01\x02', '.x 0x1', ' .x 0x1 0x2', ' *fill*', ' *fill* 0x1',
        ' .x zz yy a(b)', '.x 0x3ffb0000 zz', '                0x40080000', 'Memory Configuration', 'Linker script and memory map',
        'Cross Reference Table', 'Name', '\ufeff', '(', ' .x 0x1 0x1 )(', ' .x 0x1 0x1 a(', ' .x 0x1 0x1 a)', 'é' * 50, '(' * 500,
        ' *fill* zz 0x1', ' *fill* 0x1 zz', '                zz 0x1 LONG 0x0', '                0x1 zz LONG 0x0', 'LONG']
LINE_MUT = ['delete', 'duplicate', 'swap', 'cut-after', 'cut-before', 'move-to-end', 'strip', 'upper'] + \
           [f'replace:{i}' for i in range(len(JUNK))] + [f'insert:{i}' for i in range(len(JUNK))]


def mutate_line(L, i, mut):
    L = list(L)
    if mut == 'delete':
        del L[i]
    elif mut == 'duplicate':
        L.insert(i, L[i])
    elif mut == 'swap':
        if i + 1 < len(L):
            L[i], L[i + 1] = L[i + 1], L[i]
    elif mut == 'cut-after':
        L = L[:i + 1]
    elif mut == 'cut-before':
        L = L[i:]
    elif mut == 'move-to-end':
        L.append(L.pop(i))
    elif mut == 'strip':
        L[i] = L[i].strip()
    elif mut == 'upper':
        L[i] = L[i].upper()
    elif mut.startswith('replace:'):
        L[i] = JUNK[int(mut[8:])]
    elif mut.startswith('insert:'):
        L.insert(i, JUNK[int(mut[7:])])
    return L


def needed(L):
    """Does the text still have both required parts: the table of memory regions, then the link map?"""
    conf = next((i for i, x in enumerate(L) if x.startswith('Memory Configuration')), None)
    link = next((i for i, x in enumerate(L) if x.startswith('Linker script and memory map')), None)
    if conf is None or link is None or conf > link:
        return False
    return any(x.startswith('Name') for x in L[conf:link])


def check_line(sc):
    i, mut, mode, crt = sc
    L = mutate_line(lines(crt), i, mut)
    what = f'line {i} {mut} ({JUNK[int(mut.split(":")[1])]!r})' if ':' in mut else f'line {i} {mut}'
    what += f' {lines(crt)[i]!r}'
    text = '\n'.join(L)
    if mode == 'library':
        o = run_lib(what, text)
        if o == 'accepted' and not needed(L):
            raise Violation(f'{what}: accepted without memory configuration or linker script section')
        return o
    return judge(what, mode, run_map(text, mode), reject=not needed(L))


def line_space(modes, muts, name, bounds, crts=(True, False)):
    n = len(lines(True))

    def build(c):
        crt = c.choose('cross reference table', crts)
        i = c.choose('line', range(n if crt else len(lines(False))))
        return (i, c.choose('mutation', muts), c.choose('command', modes), crt)
    return Space(name, build, check_line, bounds=bounds)


def check_line2(sc):
    (i, a), (j, b), mode = sc
    L = mutate_line(mutate_line(lines(), i, a), j, b) if j < i else mutate_line(lines(), i, a)
    if j >= i:
        if j >= len(L):
            return None
        L = mutate_line(L, j, b)
    what = f'line {i} {a}, then line {j} {b}'
    text = '\n'.join(L)
    if mode == 'library':
        o = run_lib(what, text)
        if o == 'accepted' and not needed(L):
            raise Violation(f'{what}: accepted without memory configuration or linker script section')
        return o
    return judge(what, mode, run_map(text, mode), reject=not needed(L))


def line2_space():
    n = len(lines())
    short = ['delete', 'duplicate', 'replace:2', 'replace:4', 'insert:0', 'insert:10', 'insert:3']

    def build(c):
        i = c.choose('line', range(n))
        a = c.choose('mutation', short)
        j = c.choose('second line', range(n - 1))
        return ((i, a), (j, c.choose('second mutation', short)), 'library')
    return Space('map-line-pairs', build, check_line2, bounds=f'{n} lines x {len(short)} mutations, all pairs (library)')


# ---------------------------------------------------------------- link map: tokens

NOT_NUMBERS = ['zz', '0x', '0xg0', '1.5', 'None', '0x10)', '-', '0x400800g0', "'1'", '1e3', '0x10,']
TOKENS = NOT_NUMBERS + ['', '-0x4', '0x0', '0', '0xffffffff', '0x' + 'f' * 16, '0x' + 'f' * 40, '7', '(', ')', '*', '*fill*', '.',
                        'é', '\x00', '[/]', '[red]', 'x' * 300]


def spans(line):
    out, i = [], 0
    for t in line.split():
        k = line.index(t, i)
        out.append((k, k + len(t)))
        i = k + len(t)
    return out


def number_fields(L):
    """{(line, token index)}: addresses and sizes of memory regions, output sections and input sections."""
    out = set()
    part = None
    pend = None
    name_seen = False
    for i, x in enumerate(L):
        t = x.split()
        if x.startswith('Memory Configuration'):
            part = 'mem'
        elif x.startswith('Linker script and'):
            part = 'map'
        elif x.startswith('Cross Reference'):
            part = None
        elif part == 'mem':
            if x.startswith('Name'):
                name_seen = True
            elif name_seen and t:
                out |= {(i, 1), (i, 2)}
        elif part == 'map' and t:
            if x.startswith('.xt.prop') or x.startswith(' *(') or x.startswith('/DISC') or x.startswith('OUTPUT'):
                pend = None
            elif x.startswith('.') or x.startswith(' .') or x.startswith(' COMMON'):
                if len(t) == 1:
                    pend = i
                else:
                    out |= {(i, 1), (i, 2)}
            elif pend == i - 1:
                out |= {(i, 0), (i, 1)}
    return out


def check_token(sc):
    i, j, tok, mode, crt = sc
    L = lines(crt)
    a, b = spans(L[i])[j]
    must = (i, j) in number_fields(L) and tok in NOT_NUMBERS
    x = L[i][:a] + tok + L[i][b:]
    what = f'line {i} {L[i]!r} -> {x!r}'
    L[i] = x
    text = '\n'.join(L)
    if mode == 'library':
        o = run_lib(what, text)
        if o == 'accepted' and (must or not needed(L)):
            raise Violation(f'{what}: accepted, must be rejected')
        return o
    return judge(what, mode, run_map(text, mode), reject=must or not needed(L))


def token_space(modes, crts):
    def build(c):
        crt = c.choose('cross reference table', crts)
        L = lines(crt)
        i = c.choose('line', range(len(L)))
        j = c.choose('token', range(len(L[i].split())))
        return (i, j, c.choose('text', TOKENS), c.choose('command', modes), crt)
    return Space('map-tokens', build, check_token, bounds=f'every token of {len(lines())} lines x {len(TOKENS)} texts x '
                                                          f'commands {modes}')


def check_cut(sc):
    n, mode = sc
    text = model.render(tiny())[:n]
    L = text.splitlines()
    what = f'map cut after {n} characters'
    if mode == 'library':
        o = run_lib(what, text)
        if o == 'accepted' and not needed(L):
            raise Violation(f'{what}: accepted without memory configuration or linker script section')
        return o
    return judge(what, mode, run_map(text, mode), reject=not needed(L))


def cut_space(modes):
    n = len(model.render(tiny()))

    def build(c):
        return (c.choose('length', range(n + 1)), c.choose('command', modes))
    return Space('map-truncation', build, check_cut, bounds=f'every truncation of the map ({n} characters) x {modes}')


# ---------------------------------------------------------------- the ELF file


def elf_bytes(front):
    """The ELF of the project; with ``front`` the section headers come first, so that a truncation cuts the contents."""
    data = elfgen.image_elf(tiny(), dwarf=dwarf)
    if not front:
        return data
    import struct
    shoff = struct.unpack_from('<I', data, 0x20)[0]
    head, body, sh = bytearray(data[:52]), data[52:shoff], bytearray(data[shoff:])
    struct.pack_into('<I', head, 0x20, 52)
    for o in range(0, len(sh), 40):
        off = struct.unpack_from('<I', sh, o + 16)[0]
        if off:
            struct.pack_into('<I', sh, o + 16, off + len(sh))
    return bytes(head + sh + body)


def sections_of(m):
    out = {}
    for t in m['memory_types'].values():
        for sn, s in t['sections'].items():
            out[sn] = {'size': s['size'], 'archives': {
                an: {on: o['size'] for on, o in a['object_files'].items()} for an, a in s['archives'].items()}}
    return out


_oracle = {}


def want(with_elf):
    if with_elf not in _oracle:
        m, _ = model.oracle(tiny(), load_symbols=False, with_elf=with_elf)
        _oracle[with_elf] = (sections_of(m), {t: v['size'] for t, v in m['memory_types'].items()})
    return _oracle[with_elf]


def check_elf(sc):
    kind, pos, val, mode = sc
    base, _ = Dirs.get()
    data = elf_bytes(kind == 'front' or kind == 'cut-front')
    if kind.startswith('cut'):
        data = data[:pos]
        what = f'ELF cut after {pos} bytes ({kind})'
    else:
        data = bytearray(data)
        data[pos] = (data[pos] ^ val) if val < 0x100 else (val & 0xff)
        data = bytes(data)
        what = f'ELF byte {pos} changed with {val:#x} ({kind})'
    d = os.path.join(sut.WDIR, 'e')
    if not os.path.isdir(d):
        proj.put(d, tiny(), elf=True)
        desc = json.load(open(os.path.join(d, 'project_description.json')))
        desc.update({'build_dir': '/p/build', 'build_component_info': {
            'main': {'dir': '/p/main', 'file': '/p/build/esp-idf/main/libmain.a'}}})
        with open(os.path.join(d, 'project_description.json'), 'w') as f:
            json.dump(desc, f)
    with open(os.path.join(d, 'app.elf'), 'wb') as f:
        f.write(data)
    mp = os.path.join(d, 'app.map')
    if mode == 'library':
        # what the link map alone says must be there: every reported section with its archives and object files
        try:
            m, err = sut.get(mp, load_symbols=False)
        except Exception as e:
            raise Violation(f'{what}: memorymap.get raises {e!r}')
        got, exp = sections_of(m), want(False)
        for sn, s in got.items():
            if exp[0].get(sn) != s:
                raise Violation(f'{what}: section {sn} is {s}, the map says {exp[0].get(sn)}')
        types = {t: v['size'] for t, v in m['memory_types'].items()}
        if types != exp[1]:
            raise Violation(f'{what}: memory types {types}, expected {exp[1]}')
        if kind.startswith('cut') and got not in (exp[0], want(True)[0]):
            raise Violation(f'{what}: sections {sorted(got)}, expected {sorted(exp[0])} or {sorted(want(True)[0])}')
        if kind.startswith('cut') and got != want(True)[0] and not err:
            raise Violation(f'{what}: the ELF file is left out without a word')
        return (sorted(got), bool(err))
    r = sut.cli(*MODES[mode], mp)
    # reports that need no symbols never fail because of the ELF
    return judge(what, mode, r, accept=mode in ('table', 'files', 'json'))


def elf_space(kinds, vals, modes, name):
    n = {k: len(elf_bytes('front' in k)) for k in kinds}

    def build(c):
        k = c.choose('what', kinds)
        pos = c.choose('position', range(n[k]))
        return (k, pos, 0 if k.startswith('cut') else c.choose('value', vals), c.choose('command', modes))
    return Space(name, build, check_elf, bounds=f'every byte position of {kinds} ({n}) x {len(vals)} changes x {modes}')


def nested(depth, closed):
    def attach(w):
        body = b'\x01main.c\0' + b'\x02' * depth + (b'\0' * (depth + 1) if closed else b'')
        head = (4).to_bytes(2, 'little') + (0).to_bytes(4, 'little') + b'\x04'
        w.section('.debug_info', 'progbits', 0, data=(len(head) + len(body)).to_bytes(4, 'little') + head + body, alloc=False)
        w.section('.debug_abbrev', 'progbits', 0, data=b'\x01\x11\x01\x03\x08\0\0\x02\x0b\x01\0\0\0', alloc=False)
    return attach


def check_nesting(sc):
    depth, closed, mode = sc
    d = os.path.join(sut.WDIR, 'n')
    mp = proj.put(d, tiny(), elf=True, dwarf=nested(depth, closed))
    r = sut.cli(*MODES[mode], mp)
    return judge(f'{depth} nested debugging information entries, closed={closed}', mode, r, accept=mode in ('table', 'files', 'json'))[0]


def nesting_space():
    def build(c):
        return (c.choose('depth', (1, 100, 300, 400, 480, 500, 700, 990, 1000, 1100, 3000, 30000)), c.choose('closed', (True, False)),
                c.choose('command', ('tree', 'raw', 'table', 'files', 'json', 'details')))
    return Space('nesting', build, check_nesting, bounds='1..30000 nested entries, terminated or not x 6 commands')


# ---------------------------------------------------------------- JSON files

DESC = {'app_elf': 'app.elf', 'target': 'esp32', 'build_dir': '/p/build', 'project_path': '/p', 'version': '1.2',
        'build_component_info': {'main': {'dir': '/p/main', 'file': '/p/build/esp-idf/main/libmain.a'},
                                 'b': {'dir': '/p/b', 'file': ''}}}
SDK = {'COMPILER_LTO_LINKTIME': True, 'IDF_TARGET': 'esp32', 'X': 1}
VALUES = [None, 0, -1, 1.5, True, False, '', 'x', '\x00', '/', '..', 'é', '[red]', [], [1], ['a', None], {}, {'a': 1}, [[]], 10 ** 30,
          'x' * 5000]
RAW = ['', '{', '[]', 'null', '1', '"x"', '{"a":}', '\ufeff{}', '{} {}', '[' * 3000, '{"app_elf": NaN}', '\x00', "{'app_elf': 1}",
       '{"app_elf": "app.elf"', '[' * 200000]


def paths(d, pre=()):
    out = [pre] if pre else []
    if isinstance(d, dict):
        for k, v in d.items():
            out += paths(v, pre + (k,))
    return out


def setpath(d, path, v):
    d = copy.deepcopy(d)
    cur = d
    for k in path[:-1]:
        cur = cur[k]
    if v is DELETE:
        del cur[path[-1]]
    else:
        cur[path[-1]] = v
    return d


class DELETE:
    pass


def check_json(sc):
    which, how, mode, marker = sc
    d = os.path.join(sut.WDIR, 'j')
    img = tiny()
    img.marker = marker
    desc, sdk = DESC, SDK
    full = DESC if which == 'description' else SDK
    if how[0] == 'raw':
        new = RAW[how[1]]
    elif how[0] == 'bytes':
        new = how[1]
    elif how[0] == 'state':
        new = None
    else:
        _, path, vi = how
        new = setpath(full, path, DELETE if vi == -1 else VALUES[vi])
    what = f'{which}: {how if how[0] != "set" else (how[1], "deleted" if how[2] == -1 else VALUES[how[2]])}'
    if which == 'description':
        desc = new
    else:
        sdk = new
    binary = isinstance(new, bytes)
    state = how[1] if how[0] == 'state' else None
    mp = proj.put(d, img, elf=True, dwarf=dwarf, proj_desc='' if binary and which == 'description' or desc is None else desc,
                  sdkconfig='' if binary and which != 'description' or sdk is None else sdk)
    fn = os.path.join(d, 'project_description.json' if which == 'description' else 'config/sdkconfig.json')
    if binary:
        with open(fn, 'wb') as f:
            f.write(new)
    if state:
        os.unlink(fn)
        if state == 'directory':
            os.mkdir(fn)
        elif state == 'dangling':
            os.symlink('/nonexistent/x', fn)
        elif state == 'loop':
            os.symlink(os.path.basename(fn), fn)
        elif state == 'no config' and which != 'description':
            shutil.rmtree(os.path.dirname(fn))
        elif state == 'config is a file' and which != 'description':
            shutil.rmtree(os.path.dirname(fn))
            with open(os.path.dirname(fn), 'w') as f:
                f.write('x')
    # the map names the chip, so the reports that need nothing else are always produced
    target_ok = marker == 'idf'
    if which == 'description' and new is not None:
        try:
            val = new if isinstance(new, dict) else json.loads(new)
            target_ok &= not isinstance(val.get('target', ''), str) or val.get('target', '') in ('', 'esp32')
        except (ValueError, AttributeError, RecursionError):
            pass
    if mode == 'library':
        try:
            m, _err = sut.get(mp, load_symbols=False)
        except sut.memorymap.MemMapException as e:
            if target_ok:
                raise Violation(f'{what}: memorymap.get rejects it: {e}')
            return ('rejected', str(e))
        except Exception as e:
            raise Violation(f'{what}: memorymap.get raises {e!r}')
        exp = want(True)[0]
        lto = sections_of(m)
        if {k: v['size'] for k, v in lto.items()} != {k: v['size'] for k, v in exp.items()}:
            raise Violation(f'{what}: sections {lto}, expected {exp}')
        for sn in exp:
            keep = {a: o for a, o in exp[sn]['archives'].items() if a != '(exe)'}
            got = {a: o for a, o in lto[sn]['archives'].items() if a in keep}
            if got != keep:
                raise Violation(f'{what}: archives of {sn} {got}, expected {keep}')
        return str(lto)
    r = sut.cli(*MODES[mode], mp)
    return judge(what, mode, r, accept=target_ok and mode in ('table', 'files', 'json', 'tree'))


def json_space(modes, cuts):
    hows = {}
    for which, full in (('description', DESC), ('sdkconfig', SDK)):
        h = [('raw', i) for i in range(len(RAW))]
        h += [('state', s) for s in ('missing', 'directory', 'dangling', 'loop', 'no config', 'config is a file')]
        h += [('bytes', b'\xff\xfe{}'), ('bytes', b'{"app_elf": "\xff"}')]
        h += [('set', p, i) for p in paths(full) for i in range(-1, len(VALUES))]
        text = json.dumps(full).encode()
        h += [('bytes', text[:n]) for n in range(0, len(text), cuts)]
        h += [('bytes', text[:n] + text[n + 1:]) for n in range(0, len(text), cuts)]
        hows[which] = h

    def build(c):
        which = c.choose('file', ('description', 'sdkconfig'))
        return (which, c.choose('content', hows[which]), c.choose('command', modes), c.choose('marker', ('idf', None)))
    return Space('json', build, check_json, bounds='every key of both files x 22 values, every truncation and deleted character, '
                                                   'malformed documents, file states x commands ' + ', '.join(modes))


# ---------------------------------------------------------------- whole files

FILES = ['missing', 'directory', 'empty', 'binary', 'latin1', 'utf16', 'nul', 'dangling', 'loop', 'newlines', 'one long line', 'crlf',
         'many columns', 'bom', 'no final newline', 'tabs', 'link to an empty file']


def check_file(sc):
    kind, mode, side = sc
    d = os.path.join(sut.WDIR, 'f')
    mp = proj.put(d, tiny(), elf=True)
    good = proj.put(os.path.join(sut.WDIR, 'g'), tiny(), elf=True)
    text = open(mp, encoding='utf-8').read()
    os.unlink(mp)
    accept = reject = False
    data = None
    if kind == 'directory':
        os.mkdir(mp)
    elif kind == 'dangling':
        os.symlink('/nonexistent/y', mp)
    elif kind == 'loop':
        os.symlink('app.map', mp)
    elif kind == 'link to an empty file':
        open(mp + '.empty', 'w').close()
        os.symlink('app.map.empty', mp)
    elif kind != 'missing':
        data = {'empty': b'', 'binary': bytes(range(256)) * 20, 'latin1': text.replace('liba', 'lib\u00e9').encode('latin1'),
                'utf16': text.encode('utf-16'), 'nul': b'\0' * 5000, 'newlines': b'\n' * 5000, 'one long line': b'x' * 300000,
                'crlf': text.replace('\n', '\r\n').encode(), 'many columns': text.replace('0x', '0x1 0x').encode(),
                'bom': b'\xef\xbb\xbf' + text.encode(), 'no final newline': text.rstrip('\n').encode(),
                'tabs': text.replace('    ', '\t').encode()}[kind]
        with open(mp, 'wb') as f:
            f.write(data)
    accept = kind in ('crlf', 'bom', 'no final newline')
    reject = kind in ('missing', 'directory', 'empty', 'binary', 'latin1', 'utf16', 'nul', 'dangling', 'loop', 'newlines',
                      'one long line', 'many columns', 'link to an empty file')
    if mode == 'library':
        try:
            sut.get(mp)
        except sut.memorymap.MemMapException:
            if accept:
                raise Violation(f'{kind}: rejected')
            return 'rejected'
        except Exception as e:
            raise Violation(f'{kind}: memorymap.get raises {e!r}')
        if reject:
            raise Violation(f'{kind}: accepted')
        return 'accepted'
    if side == 'reference':
        r = sut.cli('--diff', mp, '--format', 'json2', good)
        return judge(f'{kind} reference', 'ref', r, reject=reject, accept=accept)
    return judge(kind, mode, sut.cli(*MODES[mode], mp), reject=reject, accept=accept)


def file_space():
    def build(c):
        return (c.choose('file', FILES), c.choose('command', ('table', 'raw', 'deps', 'tree', 'library')),
                c.choose('side', ('current', 'reference')))
    return Space('map-files', build, check_file, bounds=f'{len(FILES)} states of the map file x commands x side of a diff')


def spaces(tier):
    if tier == 'quick':
        return [file_space(), nesting_space(),
                line_space(('library',), LINE_MUT, 'map-lines', 'every line x 72 mutations (library)'),
                line_space(('table', 'deps', 'ref'), LINE_MUT[:22], 'map-lines-cli', 'every line x 22 mutations x 3 commands',
                           crts=(True,)),
                token_space(('library',), (True,)), cut_space(('library',)),
                elf_space(('cut', 'cut-front'), (0,), ('library', 'table', 'raw', 'tree', 'deps'), 'elf-truncation'),
                elf_space(('bytes',), (0x01, 0x80, 0x100, 0x1ff), ('library', 'tree', 'deps'), 'elf-bytes'),
                json_space(('library', 'tree'), 3)]
    return [file_space(), nesting_space(),
            line_space(('library',) + tuple(MODES), LINE_MUT, 'map-lines', 'every line x 72 mutations x all commands'),
            line2_space(), token_space(('library', 'table', 'raw', 'deps', 'ref', 'tree'), (True, False)),
            cut_space(('library', 'table', 'deps', 'raw')),
            elf_space(('cut', 'cut-front'), (0,), ('library', 'table', 'raw', 'tree', 'deps', 'files', 'json'), 'elf-truncation'),
            elf_space(('bytes', 'front'), (0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x100, 0x1ff),
                      ('library', 'tree', 'raw', 'table', 'json', 'deps'), 'elf-bytes'),
            json_space(('library', 'tree', 'table', 'raw', 'deps', 'details', 'files', 'json'), 1)]
