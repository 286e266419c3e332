"""C19: ELF and DWARF decoding.  Model = a producer that encodes known values in every way the standards allow."""
import os

from .. import ccconf, elfgen, lto, sut
from ..core import Prune, Space, Violation
from ..elfgen import sleb, uleb

ASSUMPTIONS = ['section header and symbol table entries have the size the class defines; fewer than 0xff00 sections',
               'references within a unit are reported as offsets in the debug information section']


def load(data):
    fn = os.path.join(sut.WDIR, 'x.elf')
    with open(fn, 'wb') as f:
        f.write(data)
    return sut.elf.Elf(fn)


# ---------------------------------------------------------------- attribute forms

U = {n: [0, 1, 0x7f, 0x80, (1 << (8 * n)) // 2 - 1, (1 << (8 * n)) // 2, (1 << (8 * n)) - 1, (1 << (8 * n)) - 2,
         sum((i + 1) << (8 * i) for i in range(n))] for n in (1, 2, 3, 4, 8, 16)}
for _n in U:
    U[_n] = sorted({v for v in U[_n] if v < 1 << (8 * _n)})
ULEB = sorted({0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
               2 ** 35, 2 ** 42 + 5, 2 ** 49 - 1, 2 ** 56, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 70 + 3})
SLEB = sorted({s * v + d for v in (0, 1, 63, 64, 127, 128, 8191, 8192, 2 ** 20, 2 ** 27, 2 ** 31, 2 ** 34, 2 ** 41, 2 ** 48, 2 ** 55,
                                   2 ** 62) for s in (1, -1) for d in (-1, 0, 1)} | {-2 ** 63, 2 ** 63 - 1, 2 ** 68, -2 ** 68, 2 ** 80 + 7, -2 ** 80 + 7})
LENS = {1: (0, 1, 2, 127, 128, 255), 2: (0, 1, 127, 128, 255, 256, 300, 65535), 4: (0, 1, 128, 256, 65536), 'u': (0, 1, 127, 128, 129, 255,
                                                                                                         256, 16383, 16384)}


def blob(n):
    return bytes((i * 7 + 3) & 0xff for i in range(n))


FIXED = {'data1': (0x0b, 1), 'data2': (0x05, 2), 'data4': (0x06, 4), 'data8': (0x07, 8), 'data16': (0x1e, 16), 'flag': (0x0c, 1),
         'ref1': (0x11, 1), 'ref2': (0x12, 2), 'ref4': (0x13, 4), 'ref8': (0x14, 8), 'ref_sig8': (0x20, 8), 'ref_sup4': (0x1c, 4),
         'ref_sup8': (0x24, 8), 'strx1': (0x25, 1), 'strx2': (0x26, 2), 'strx3': (0x27, 3), 'strx4': (0x28, 4)}
OFFSET = {'sec_offset': 0x17, 'strp': 0x0e, 'line_strp': 0x1f, 'strp_sup': 0x1d, 'ref_addr': 0x10}
LEB = {'udata': 0x0f, 'ref_udata': 0x15, 'strx': 0x1a, 'loclistx': 0x22, 'rnglistx': 0x23}
BLOCK = {'block1': (0x0a, 1), 'block2': (0x03, 2), 'block4': (0x04, 4), 'block': (0x09, 'u'), 'exprloc': (0x18, 'u')}
FORMS = tuple(FIXED) + tuple(OFFSET) + tuple(LEB) + tuple(BLOCK) + ('addr', 'string', 'sdata', 'implicit_const', 'flag_present')
STRINGS = (b'', b'a', b'name.c', 'näme'.encode(), b'x' * 300, b'\xff\xfe', b' spaces in it ')


def values(form, d64, addr_size, version):
    """The alphabet of a form: list of (value, padding of the variable-length number)."""
    if form in FIXED:
        return [(v, 0) for v in U[FIXED[form][1]]]
    if form == 'ref_addr' and version == 2:
        return [(v, 0) for v in U[addr_size]]
    if form in OFFSET:
        return [(v, 0) for v in U[8 if d64 else 4]]
    if form in LEB:
        return [(v, 0) for v in ULEB] + [(v, p) for v in (0, 1, 127, 128, 2 ** 32) for p in (1, 2, 5, 12, 40)]
    if form in ('sdata', 'implicit_const'):
        return [(v, 0) for v in SLEB] + [(v, p) for v in (0, 1, -1, 63, -64, 64, -128, 2 ** 31, -2 ** 31) for p in (1, 2, 5, 12, 40)]
    if form in BLOCK:
        k = BLOCK[form][1]
        return [(blob(n), 0) for n in LENS[k]] + ([(blob(n), p) for n in (0, 1, 127, 128) for p in (1, 3)] if k == 'u' else [])
    if form == 'addr':
        return [(v, 0) for v in U[addr_size]]
    if form == 'string':
        return [(v, 0) for v in STRINGS]
    return [(True, 0)]


def encode(d, form, value, pad, version):
    """-> (form code, raw bytes)"""
    if form in FIXED:
        return FIXED[form][0], d.num(value, FIXED[form][1])
    if form == 'ref_addr' and version == 2:
        return 0x10, d.addr(value)
    if form in OFFSET:
        return OFFSET[form], d.offset(value)
    if form in LEB:
        return LEB[form], uleb(value, pad)
    if form == 'sdata':
        return 0x0d, sleb(value, pad)
    if form == 'implicit_const':
        return 0x21, sleb(value, pad)
    if form in BLOCK:
        code, k = BLOCK[form]
        return code, (uleb(len(value), pad) if k == 'u' else d.num(len(value), k)) + value
    if form == 'addr':
        return 0x01, d.addr(value)
    if form == 'string':
        return 0x08, value + b'\0'
    return 0x19, b''


MARK = 0xbeef


def check_form(sc):
    bits, little, version, d64, addr_size, form, value, pad, shape, before = sc
    w = elfgen.ElfWriter(bits, little)
    d = elfgen.Dwarf(w, version, d64, addr_size)
    if before:   # an earlier unit, so that offsets are not zero
        d.unit((0x11, [(0x03, 0x08, b'first.c\0')], None))
    code, raw = encode(d, form, value, pad, version)
    x = (0x3e, code, raw)
    m = (0x0b, 0x05, d.num(MARK, 2))
    if shape == 'unit':
        leaf = (0x34, [m], None)
        die = (0x11, [x, m], [leaf])
        holder = die
    elif shape == 'child':
        leaf = (0x34, [m], None)
        holder = (0x2e, [m, x], None)
        die = (0x11, [m], [holder, leaf])
    else:   # twice in a row, with children
        leaf = (0x34, [m], None)
        holder = (0x2e, [x, (0x3f, code, raw), m], [leaf])
        die = (0x11, [m], [holder])
    start = len(d.info)
    offs = d.unit(die)
    end = len(d.info)
    d.unit((0x11, [(0x03, 0x08, b'last.c\0')], None))
    d.attach()
    e = load(w.build())
    want = value
    if form.startswith('ref') and form in ('ref1', 'ref2', 'ref4', 'ref8', 'ref_udata'):
        want = value + start
    errs = []
    cus = e.CUs
    if len(cus) != (3 if before else 2):
        errs.append(f'{len(cus)} units')
    else:
        cu = cus[-2]
        dies = cu.DIEs
        named = {o: n for n, o in (('unit', offs[id(die)]), ('holder', offs[id(holder)]), ('leaf', offs[id(leaf)]))}
        real = {o: x2 for o, x2 in dies.items() if x2['code']}
        if set(real) != set(offs.values()):
            errs.append(f'entries at {sorted(real)}, expected {sorted(offs.values())}')
        else:
            h = real[offs[id(holder)]]
            got = h['attrs'].get(0x3e)
            if got is None or type(got['value']) is not type(want) or got['value'] != want:
                errs.append(f'{form} {want!r} decoded as {got and got["value"]!r}')
            if got is not None and got['form'] != code:
                errs.append(f'form {got["form"]:#x}')
            if form != 'implicit_const' and got is not None and got['size'] != len(raw):
                errs.append(f'size of the attribute {got["size"]}, expected {len(raw)}')
            if shape == 'twice' and h['attrs'][0x3f]['value'] != want:
                errs.append(f'second attribute decoded as {h["attrs"][0x3f]["value"]!r}')
            for o, n in named.items():
                v = real[o]['attrs'].get(0x0b)
                if (v or {}).get('value') != MARK:
                    errs.append(f'attribute after it in {n} decoded as {v}')
            if real[offs[id(leaf)]]['tag'] != 0x34:
                errs.append('tag of the following entry')
        if cu.offset != start or cu.version != version:
            errs.append(f'unit at {cu.offset}, version {cu.version}')
        last = cus[-1]
        if last.offset != end or [cu2_name(last)] != ['last.c']:
            errs.append('following unit not found')
    if errs:
        raise Violation(f'{sc}: ' + '; '.join(errs))
    return (form, repr(want)[:40])


def cu2_name(cu):
    die = next(iter(cu.DIEs.values()))
    return cu.get_attr_str(die['attrs'][0x03])


def form_space(full):
    def build(c):
        bits = c.choose('class', (32, 64))
        little = not c.flag('big endian')
        version = c.choose('version', (4, 5, 3, 2))
        d64 = c.flag('64-bit DWARF')
        addr_size = c.choose('address size', (bits // 8, 12 - bits // 8))
        form = c.choose('form', FORMS, free=True)
        v = c.choose('value', values(form, d64, addr_size, version), free=True)
        return (bits, little, version, d64, addr_size, form, v[0], v[1], c.choose('position', ('unit', 'child', 'twice')),
                c.choose('earlier unit', (False, True)))
    return Space('forms', build, check_form, budget=None if full else 2, key=lambda s: repr(s),
                 describe=lambda s: repr(s)[:600],
                 bounds=f'{len(FORMS)} forms x all boundary values x class x byte order x version x format x address size x position'
                        + ('' if full else ' (<=2 deviations beside form and value)'))


# ---------------------------------------------------------------- entry trees, abbreviations, units


def trees(n):
    """All ordered forests of n nodes; a node is None (no children flag) or a list of nodes."""
    if n == 0:
        return [[]]
    out = []
    for k in range(1, n + 1):
        for rest in trees(n - k):
            if k == 1:
                out.append([None] + rest)
                out.append([[]] + rest)
            else:
                for sub in trees(k - 1):
                    out.append([sub] + rest)
    return out


ALLTREES = {n: trees(n) for n in range(0, 7)}


def check_tree(sc):
    forest, bits, little, version, d64, codes, order, pad, ut = sc
    w = elfgen.ElfWriter(bits, little)
    d = elfgen.Dwarf(w, version, d64)
    expect = []
    counter = [0]

    def mk(node):
        counter[0] += 1
        n = counter[0]
        attrs = [(0x03, 0x08, f'n{n}'.encode() + b'\0')] + ([(0x0b, 0x0b, bytes([n]))] if n % 2 else [])
        return (0x34 if n % 3 else 0x2e, attrs, None if node is None else [mk(x) for x in node])
    kids = [mk(x) for x in forest]
    die = (0x11, [(0x03, 0x08, b'unit.c\0')], kids if forest is not None else None)
    codes_of = {'seq': lambda n: n, 'sparse': lambda n: 3 * n + 2, 'big': lambda n: 126 + n, 'huge': lambda n: 20000 * n, 'down': lambda n: 50 - n}
    offs = d.unit(die, unit_type=ut, codes_of=codes_of[codes], table_order=order, pad=pad)
    d.unit((0x11, [(0x03, 0x08, b'last.c\0')], None), codes_of=codes_of[codes])
    d.attach()
    e = load(w.build())

    def walk(x, parent, level):
        expect.append((offs[id(x)], x[0], parent, level, x[1][0][2][:-1]))
        for ch in x[2] or []:
            walk(ch, offs[id(x)], level + 1)
    walk(die, None, 0)
    cus = e.CUs
    if len(cus) != 2:
        raise Violation(f'{sc}: {len(cus)} units')
    got = [(o, x['tag'], x['parent'], x['level'], x['attrs'][3]['value']) for o, x in cus[0].DIEs.items() if x['code']]
    if sorted(got) != sorted(expect):
        raise Violation(f'{sc}: entries {got}, expected {expect}')
    if cu2_name(cus[1]) != 'last.c':
        raise Violation(f'{sc}: second unit not found')
    # a filtered reading gives the same entries
    filt = [(o, x['tag']) for o, x in cus[0].get_DIEs([0x34]).items()]
    if sorted(filt) != sorted((o, t) for o, t, *_ in expect if t == 0x34):
        raise Violation(f'{sc}: filtered entries {filt}')
    return len(got)


def tree_space(n, full):
    def build(c):
        size = c.choose('entries', range(0, n + 1), free=True)
        f = c.choose('tree', ALLTREES[size], free=True)
        version = c.choose('version', (4, 5, 3, 2))
        return (f, c.choose('class', (32, 64)), not c.flag('big endian'), version, c.flag('64-bit DWARF'),
                c.choose('codes', ('seq', 'sparse', 'big', 'huge', 'down')), c.choose('table order', (1, -1)), c.choose('padding', (0, 1, 3)),
                c.choose('unit type', (1, 2, 3, 4, 5, 6)) if version == 5 else 1)
    return Space('trees', build, check_tree, budget=3 if full else 2, bounds=f'all trees of <= {n} entries x version x format x abbreviation '
                 f'codes x unit types (<= {3 if full else 2} deviations)')


def check_deep(sc):
    """Deep and wide trees, attributes of any code."""
    depth, width, attr, bits, version = sc
    w = elfgen.ElfWriter(bits, True)
    d = elfgen.Dwarf(w, version, False)
    n = [0]

    def mk(level):
        n[0] += 1
        extra = [(attr, 0x0b, b'\x07'), (0x3a, 0x0b, b'\x05')]

        def leaf():
            return [(0x34, [(0x03, 0x08, b'leaf\0')] + extra, None) for _ in range(width if level in (0, depth) else 1)]
        return (0x2e, [(0x03, 0x08, f'n{level}'.encode() + b'\0')] + extra, leaf() + ([mk(level + 1)] if level < depth else []) + leaf())
    die = (0x11, [(0x03, 0x08, b'unit.c\0')], [mk(0)])
    offs = d.unit(die)
    d.unit((0x11, [(0x03, 0x08, b'last.c\0')], None))
    d.attach()
    e = load(w.build())
    expect = []

    def walk(x, parent, level):
        expect.append((offs[id(x)], x[0], parent, level, x[1][0][2][:-1], (7, 5) if level else None))
        for ch in x[2] or []:
            walk(ch, offs[id(x)], level + 1)
    walk(die, None, 0)
    cus = e.CUs
    got = [(o, x['tag'], x['parent'], x['level'], x['attrs'][3]['value'], (x['attrs'][attr]['value'], x['attrs'][0x3a]['value']) if x['level'] else None)
           for o, x in cus[0].DIEs.items() if x['code']]
    if len(cus) != 2 or sorted(got) != sorted(expect) or cu2_name(cus[1]) != 'last.c':
        miss = sorted(set(expect) - set(got))[:3]
        raise Violation(f'{sc}: {len(cus)} units, {len(got)} entries instead of {len(expect)}, missing {miss}')
    return len(got)


def deep_space():
    def build(c):
        return (c.choose('depth', (0, 1, 7, 8, 31, 32, 33, 64, 100, 150)), c.choose('width', (0, 1, 130)),
                c.choose('attribute', (0x49, 0x8c, 0x2000, 0x2137, 0x3fff, 0x4001, 0x10001)), c.choose('class', (32, 64)),
                c.choose('version', (4, 5)))
    return Space('deep', build, check_deep, bounds='nesting up to 150 levels x up to 260 entries in a level x attribute codes up to 0x10001')


def check_units(sc):
    """Sequences of units with individual versions, formats and shared or separate abbreviations."""
    units, bits, little = sc
    w = elfgen.ElfWriter(bits, little)
    d = elfgen.Dwarf(w, 4, False)
    want = []
    for k, (version, d64, shared, ut) in enumerate(units):
        d.d64 = d64
        start = len(d.info)
        name = f'u{k}.c'
        d.unit((0x11, [(0x03, 0x0e, d.strp(name)), (0x0b, 0x0b, bytes([k]))], None), version=version,
               share_abbrev=0 if shared and k else None, unit_type=ut)
        want.append((start, version, name, k))
    d.attach()
    e = load(w.build())
    got = []
    for cu in e.CUs:
        die = next(iter(cu.DIEs.values()))
        got.append((cu.offset, cu.version, cu.get_attr_str(die['attrs'][3]), die['attrs'][0x0b]['value']))
    if got != want:
        raise Violation(f'{sc}: units {got}, expected {want}')
    return repr(got)


def unit_space(n):
    kinds = [(4, False, False, 1), (5, False, False, 1), (2, False, False, 1), (3, True, False, 1), (4, True, False, 1), (5, True, False, 2),
             (5, False, False, 4), (4, False, True, 1), (5, True, True, 3), (5, False, False, 2), (5, True, False, 5)]

    def build(c):
        k = c.choose('units', range(1, n + 1))
        return (tuple(c.choose(f'unit {i}', kinds) for i in range(k)), c.choose('class', (32, 64)), not c.flag('big endian'))
    return Space('units', build, check_units, bounds=f'all sequences of <= {n} units over {len(kinds)} kinds x class x byte order')


# ---------------------------------------------------------------- symbols and source files


def check_assoc(sc):
    bits, little, version, d64, addr_size, syms, form, block = sc
    w = elfgen.ElfWriter(bits, little)
    w.section('.text', 'progbits', 0x1000, data=b'\0' * 4)
    d = elfgen.Dwarf(w, version, d64, addr_size)
    want = {}
    units = {}
    for i, (typ, size, shndx, dk, cu) in enumerate(syms):
        addr = (0x1000 + 0x10 * i) if i % 2 == 0 else ((1 << (8 * addr_size)) - 0x100 + i if addr_size * 8 <= bits else 0xffff0000 + i)
        w.symbol(f's{i}', addr, size, typ, 1, shndx)
        if dk is not None:
            units.setdefault(cu, []).append((dk, f's{i}', addr))
        if size and typ in (1, 2) and shndx != 0xfff1:
            want[addr] = (f's{i}', f'{cu}.c' if dk is not None else None)
    for cu, ss in units.items():
        attrs = [lto.name_attr(d, f'{cu}.c', form)]
        d.unit((lto.CU, attrs, [lto.die(d, *s, block=block) for s in ss] + [lto.die(d, 'func', 'decl', None), lto.die(d, 'var', 'decl', None)]))
    d.attach()
    e = load(w.build())
    got = {a: (s.name, s.cu_name) for a, s in e.add_cus_to_symbols().items()}
    if got != want:
        raise Violation(f'{sc}: symbols {got}, expected {want}')
    return repr(got)


def assoc_space(full):
    alpha = [(2, 4, 1, 'func', 'a'), (1, 4, 1, 'var', 'b'), (1, 4, 1, None, 'a'), (2, 0, 1, 'func', 'a'), (0, 4, 1, 'func', 'b'),
             (2, 4, 0xfff1, 'func', 'a'), (2, 8, 2, 'func', 'b')]

    def build(c):
        bits, version = c.choose('class', (32, 64)), c.choose('version', (4, 5, 3, 2))
        block = c.choose('location form', ('block1', 'block2', 'block4', 'block')) if version < 4 else None
        form = c.choose('name form', ('string', 'strp', 'line_strp'))
        if form == 'line_strp' and version < 5:
            raise Prune()
        addr_size = c.choose('address size', (bits // 8, 12 - bits // 8))
        n = c.choose('symbols', range(1, 4 if full else 3))
        return (bits, not c.flag('big endian'), version, c.flag('64-bit DWARF'), addr_size,
                tuple(c.choose(f'symbol {i}', alpha) for i in range(n)), form, block)
    return Space('source-of-symbols', build, check_assoc, bounds='all sequences of symbols and entries x class x byte order x version x '
                                                                 'format x name form x address size')


# ---------------------------------------------------------------- ELF headers, sections, symbols


def check_elf(sc):
    bits, little, secs, syms, tab = sc
    w = elfgen.ElfWriter(bits, little)
    for name, typ, flags, addr, data in secs:
        w.section(name, 'progbits', addr, data=data, type_=typ, flags=flags)
    for s in syms:
        w.symbol(*s)
    e = load(w.build(symtab=tab != 'none', dynsym=tab == 'dynsym', both=tab == 'both'))
    got = [(s.name, s.sh_type, s.sh_flags, s.sh_addr, s.sh_size, bytes(s.data) if s.sh_type not in (0, 8) else b'')
           for s in e.shdrs][1:1 + len(secs)]
    want = [(n, t, f, a, len(x), x if t not in (0, 8) else b'') for n, t, f, a, x in secs]
    if got != want:
        raise Violation(f'{sc}: sections {got}, expected {want}')
    g = [(s.name, s.st_value, s.st_size, s.type, s.bind, s.st_shndx, s.st_other & 3) for s in e.symbols]
    del g[:1]
    if tab == 'both':
        del g[len(syms):len(syms) + 1]     # the null symbol of the second table
    x = [] if tab == 'none' else [(n, a, z, t, b, i, o & 3) for n, a, z, t, b, i, o in syms] * (2 if tab == 'both' else 1)
    if g != x:
        raise Violation(f'{sc}: symbols {g}, expected {x}')
    return (len(got), repr(x)[:100])


def elf_space(full):
    def build(c):
        bits = c.choose('class', (32, 64), free=True)
        little = not c.flag('big endian', free=True)
        big = [0, 1, 0x80, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff] + ([0x123456789abcdef0, 2 ** 63, 2 ** 64 - 1] if bits == 64 else [])
        n = c.choose('sections', (1, 0, 2, 3))
        secs = []
        for i in range(n):
            secs.append((c.choose(f'name {i}', ('.text', '', '.a', '.text', 'näme', '.x' * 60, 'no dot')),
                         c.choose(f'type {i}', (1, 8, 7, 14, 15, 4, 0x6ffffff6, 0x70000001, 0xffffffff)),
                         c.choose(f'flags {i}', [2, 0, 6, 7, 0x32] + big[3:]), c.choose(f'address {i}', big),
                         c.choose(f'data {i}', (b'abc', b'', b'\0' * 700))))
        k = c.choose('symbols', (1, 0, 2))
        syms = []
        for i in range(k):
            syms.append((c.choose(f'symbol name {i}', ('f', '', 'näme', 'x' * 300, '_Z3fooILi1EEvv', 'a b', 'f.constprop.0')),
                         c.choose(f'value {i}', big), c.choose(f'size {i}', big), c.choose(f'type of symbol {i}', range(16)),
                         c.choose(f'bind {i}', range(16)), c.choose(f'index {i}', (1, 0, 2, 0xff00, 0xfff1, 0xfff2, 0xffff)),
                         c.choose(f'other {i}', (0, 1, 2, 3, 0x60, 0xff))))
        return (bits, little, tuple(secs), tuple(syms), c.choose('table', ('symtab', 'dynsym', 'none', 'both')))
    return Space('headers', build, check_elf, budget=3 if full else 2, bounds='section headers and symbols: every field over boundary values '
                 f'(<= {3 if full else 2} deviations) x class x byte order')


def check_many(sc):
    """Many symbols and sections, two symbol tables."""
    bits, little, n, m = sc
    w = elfgen.ElfWriter(bits, little)
    for i in range(m):
        w.section(f'.s{i}', 'progbits', i * 16, data=bytes([i & 255]) * (i % 5))
    for i in range(n):
        w.symbol(f'sym{i}', i * 4, i % 7, i % 3, i % 3, 1 + i % max(m, 1))
    e = load(w.build())
    if [(s.name, s.st_value, s.st_size) for s in e.symbols][1:] != [(f'sym{i}', i * 4, i % 7) for i in range(n)]:
        raise Violation(f'{sc}: symbols {[(s.name, s.st_value, s.st_size) for s in e.symbols]}')
    if [s.name for s in e.shdrs][1:m + 1] != [f'.s{i}' for i in range(m)]:
        raise Violation(f'{sc}: sections')
    return sc


def many_space():
    def build(c):
        return (c.choose('class', (32, 64)), not c.flag('big endian'), c.choose('symbols', (0, 1, 2, 3, 15, 16, 17, 100, 1000)),
                c.choose('sections', (0, 1, 2, 30, 254, 255, 256, 300)))
    return Space('many', build, check_many, bounds='0..1000 symbols x 0..300 sections x class x byte order')


# ---------------------------------------------------------------- rejected files


def check_reject(sc):
    kind, v = sc[0], sc[1]
    w = elfgen.ElfWriter(32, True)
    w.section('.text', 'progbits', 0x1000, data=b'\0' * 4)
    if kind == 'version':
        d = elfgen.Dwarf(w, 4)
        d.unit((0x11, [(0x03, 0x08, b'a.c\0')], None))
        d.info[4:6] = d.num(v, 2)
        d.attach()
    elif kind == 'form':
        d = elfgen.Dwarf(w, sc[2])
        d.unit((0x11, [(0x3e, v, b'\1\1\1\1\1\1\1\1'), (0x03, 0x08, b'a.c\0')], None))
        d.attach()
    elif kind == 'address size':
        d = elfgen.Dwarf(w, 4)
        d.unit((0x11, [(0x03, 0x08, b'a.c\0')], None))
        d.info[10] = v
        d.attach()
    data = bytearray(w.build())
    if kind == 'magic':
        data[v] ^= sc[2]
    elif kind == 'class':
        data[4] = v
    elif kind == 'data':
        data[5] = v
    elif kind == 'not elf':
        data = v
    try:
        e = load(bytes(data))
        [s.name for s in e.symbols]
        for cu in e.CUs:
            cu.DIEs
    except sut.elf.Elf_Exception:
        return ('rejected', kind)
    except Exception as x:
        raise Violation(f'{sc}: {x!r} instead of the ELF error')
    raise Violation(f'{sc}: accepted')


SUPPORTED = {f for f, _ in FIXED.values()} | set(OFFSET.values()) | set(LEB.values()) | {f for f, _ in BLOCK.values()} | {0x01, 0x08, 0x0d, 0x21,
                                                                                                                     0x19}
ADDRX = {0x1b, 0x29, 0x2a, 0x2b, 0x2c, 0x16, 0x1f01, 0x1f02, 0x1f20, 0x1f21}   # defined, but support is optional


def reject_space():
    def build(c):
        kind = c.choose('kind', ('magic', 'class', 'data', 'version', 'form', 'not elf'))
        if kind == 'magic':
            return (kind, c.choose('byte', range(4)), c.choose('bit', [1 << i for i in range(8)]))
        if kind in ('class', 'data'):
            return (kind, c.choose('value', [0] + list(range(3, 256))))
        if kind == 'version':
            return (kind, c.choose('value', (0, 1, 6, 7, 0x100, 0x200, 0x400, 0xffff)))
        if kind == 'form':
            bad = [f for f in list(range(0x02, 0x40)) + [0x7f, 0x80, 0x100, 0x1f00, 0x3fff] if f not in SUPPORTED and f not in ADDRX]
            return (kind, c.choose('value', bad), c.choose('version', (2, 3, 4, 5)))
        return (kind, c.choose('value', (b'', b'\x7f', b'\x7fELF', b'\x7fELF\1\1', b'!<arch>\n', b'#!/bin/sh\n', b'\0' * 100, b'\xff' * 100,
                                         b'\x7fELF' + b'\0' * 60, b'MZ' + b'\0' * 100)))
    return Space('rejected', build, check_reject, bounds='every bit of the magic, every class and byte order value, versions, unknown forms')


def spaces(tier):
    full = tier != 'quick'
    return [form_space(full), tree_space(6 if full else 4, full), unit_space(4 if full else 3), assoc_space(full), elf_space(full), many_space(),
            reject_space(), deep_space()] + ([ccconf.space(full)] if ccconf.available() else [])
