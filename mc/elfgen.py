"""Writer of ELF files (either class and byte order) with section headers, symbol tables and DWARF."""
import struct

SHT = {'null': 0, 'progbits': 1, 'symtab': 2, 'strtab': 3, 'note': 7, 'nobits': 8, 'dynsym': 11}
ALLOC = 2


def uleb(v, pad=0):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if v or pad:
            out.append(b | 0x80)
            if not v:
                pad -= 1
                while pad > 0:
                    out.append(0x80)
                    pad -= 1
                out.append(0)
                return bytes(out)
        else:
            out.append(b)
            return bytes(out)


def sleb(v, pad=0):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        done = (v == 0 and not b & 0x40) or (v == -1 and b & 0x40)
        if done and not pad:
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)
        if done:
            fill = 0x7F if v == -1 else 0
            for _ in range(pad - 1):
                out.append(fill | 0x80)
            out.append(fill)
            return bytes(out)


class ElfWriter:
    def __init__(self, bits=32, little=True):
        self.bits, self.little = bits, little
        self.e = '<' if little else '>'
        self.sections = []  # (name, type, flags, addr, data|None, size, link)
        self.symbols = []
        self.phnum = 2     # segments, as every executable has
        self.align = 16    # sh_addralign of allocated sections

    def section(self, name, kind, addr=0, data=None, size=None, alloc=True, link=0, type_=None, flags=None):
        if data is None and kind not in ('nobits',):
            data = b'\0' * (size or 0)
        self.sections.append([name, SHT[kind] if type_ is None else type_,
                              (ALLOC if alloc else 0) if flags is None else flags, addr,
                              data, len(data) if data is not None else size, link])

    def symbol(self, name, addr, size, stt=1, bind=1, shndx=1, other=0):
        self.symbols.append((name, addr, size, stt, bind, shndx, other))

    def build(self, symtab=True, dynsym=False, both=False):
        secs = [['', 0, 0, 0, b'', 0, 0]] + [list(s) for s in self.sections]
        for dynsym in () if not symtab else (True, False) if both else (dynsym,):
            strtab = bytearray(b'\0')
            tab = bytearray(self._sym(0, 0, 0, 0, 0, 0, 0))
            for name, addr, size, stt, bind, shndx, other in self.symbols:
                off = 0
                if name:
                    off = len(strtab)
                    strtab += name.encode() + b'\0'
                tab += self._sym(off, addr, size, stt, bind, shndx, other)
            secs.append(['.dynsym' if dynsym else '.symtab', SHT['dynsym' if dynsym else 'symtab'], 0, 0, bytes(tab),
                         len(tab), len(secs) + 1])
            secs.append(['.strtab', SHT['strtab'], 0, 0, bytes(strtab), len(strtab), 0])
        shstr = bytearray(b'\0')
        names = []
        secs.append(['.shstrtab', SHT['strtab'], 0, 0, None, 0, 0])
        for s in secs:
            if not s[0]:
                names.append(0)
                continue
            names.append(len(shstr))
            shstr += s[0].encode() + b'\0'
        secs[-1][4], secs[-1][5] = bytes(shstr), len(shstr)
        ehsize = 52 if self.bits == 32 else 64
        phent = 32 if self.bits == 32 else 56
        body = bytearray()
        for i in range(self.phnum):
            at, n = 0x40000000 + 0x100000 * i, 0x1000 + i
            body += (struct.pack(self.e + '8I', 1, 0, at, at, n, n + 4, 5 + i, 0x1000) if self.bits == 32 else
                     struct.pack(self.e + '2I6Q', 1, 5 + i, 0, at, at, n, n + 4, 0x1000))
        offs = []
        for s in secs:
            offs.append(ehsize + len(body) if s[1] else 0)
            if s[4]:
                body += s[4]
        shoff = ehsize + len(body)
        shent = 40 if self.bits == 32 else 64
        sh = bytearray()
        for s, no, of in zip(secs, names, offs):
            fmt = '10L' if self.bits == 32 else '2L4Q2L2Q'
            sh += struct.pack(self.e + fmt.replace('L', 'I'), no, s[1], s[2], s[3], of, s[5], s[6], 0, self.align if s[2] & ALLOC else 1, 0)
        ident = b'\x7fELF' + bytes([1 if self.bits == 32 else 2, 1 if self.little else 2, 1]) + b'\0' * 9
        if self.bits == 32:
            eh = ident + struct.pack(self.e + '2H5I6H', 2, 94, 1, 0, ehsize if self.phnum else 0, shoff, 0, ehsize, phent, self.phnum, shent, len(secs),
                                     len(secs) - 1)
        else:
            eh = ident + struct.pack(self.e + '2HI3QI6H', 2, 94, 1, 0, ehsize if self.phnum else 0, shoff, 0, ehsize, phent, self.phnum, shent, len(secs),
                                     len(secs) - 1)
        return bytes(eh + body + sh)

    def _sym(self, off, addr, size, stt, bind, shndx, other):
        info = (bind << 4) | stt
        if self.bits == 32:
            return struct.pack(self.e + '3I2BH', off, addr, size, info, other, shndx)
        return struct.pack(self.e + 'I2BH2Q', off, info, other, shndx, addr, size)


# ---------------------------------------------------------------- DWARF

class Dwarf:
    """Builds .debug_info/.debug_abbrev/.debug_str/.debug_line_str.

    A unit is {'version', 'dies': [...]} and a DIE is (tag, [(attr, form, raw-bytes)], [children])
    """

    def __init__(self, writer, version=4, dwarf64=False, addr_size=None):
        self.w, self.version, self.d64 = writer, version, dwarf64
        self.addr_size = addr_size or writer.bits // 8
        self.info, self.abbrev = bytearray(), bytearray()
        self.str, self.line_str = bytearray(b'\0'), bytearray(b'\0')

    def num(self, v, size):
        return int(v).to_bytes(size, 'little' if self.w.little else 'big', signed=v < 0)

    def offset(self, v):
        return self.num(v, 8 if self.d64 else 4)

    def addr(self, v):
        return self.num(v, self.addr_size)

    def strp(self, s):
        off = len(self.str)
        self.str += s.encode() + b'\0'
        return self.offset(off)

    def line_strp(self, s):
        off = len(self.line_str)
        self.line_str += s.encode() + b'\0'
        return self.offset(off)

    def unit(self, die, version=None, share_abbrev=None, unit_type=1, codes_of=lambda n: n, pad=0, table_order=1):
        """Append a unit; returns {id(die): offset in .debug_info}.

        codes_of: abbreviation code of the n-th (1..) abbreviation; pad: null entries after the unit's entries;
        table_order -1: abbreviations in reverse order."""
        version = version or self.version
        abbrev_off = len(self.abbrev)
        codes, table = {}, []
        offsets = {}

        hdr_len = (12 if self.d64 else 4) + 2 + 1 + (8 if self.d64 else 4) + (1 if version == 5 else 0)
        if version == 5:
            hdr_len += {2: 8 + (8 if self.d64 else 4), 6: 8 + (8 if self.d64 else 4), 4: 8, 5: 8}.get(unit_type, 0)
        start = len(self.info)

        def abbrev_of(tag, attrs, has_children):
            key = (tag, tuple((a, f, raw if f == 0x21 else b'') for a, f, raw in attrs), has_children)
            if key not in codes:
                codes[key] = codes_of(len(codes) + 1)
                entry = uleb(codes[key]) + uleb(tag) + bytes([1 if has_children else 0])
                for a, f, raw in attrs:
                    entry += uleb(a) + uleb(f)
                    if f == 0x21:
                        entry += raw
                table.append(entry + b'\0\0')
            return codes[key]

        def emit(d, pos):
            tag, attrs, children = d
            offsets[id(d)] = pos
            out = bytearray(uleb(abbrev_of(tag, attrs, children is not None)))
            for a, f, raw in attrs:
                if f != 0x21:
                    out += raw() if callable(raw) else raw
            if children is not None:
                for ch in children:
                    out += emit(ch, pos + len(out))
                out += b'\0'
            return bytes(out)

        body = emit(die, start + hdr_len) + b'\0' * pad
        if share_abbrev is None:
            self.abbrev += b''.join(table[::table_order]) + b'\0'
        else:
            abbrev_off = share_abbrev
        n = self.num
        if version == 5:
            rest = n(5, 2) + bytes([unit_type, self.addr_size]) + self.offset(abbrev_off)
            if unit_type in (2, 6):
                rest += n(0x1122334455667788, 8) + self.offset(hdr_len)
            elif unit_type in (4, 5):
                rest += n(0x1122334455667788, 8)
        else:
            rest = n(version, 2) + self.offset(abbrev_off) + bytes([self.addr_size])
        length = len(rest) + len(body)
        if self.d64:
            hdr = n(0xFFFFFFFF, 4) + n(length, 8)
        else:
            hdr = n(length, 4)
        self.info += hdr + rest + body
        return offsets

    def attach(self):
        for name, data in (('.debug_info', self.info), ('.debug_abbrev', self.abbrev), ('.debug_str', self.str),
                           ('.debug_line_str', self.line_str)):
            self.w.section(name, 'progbits', 0, bytes(data), alloc=False)


# ---------------------------------------------------------------- the project ELF of a model image

STT = {'func': 2, 'object': 1, 'notype': 0, 'section': 3, 'file': 4, 'tls': 6}
BIND = {'local': 0, 'global': 1, 'weak': 2}


def image_elf(img, bits=32, little=True, extra_shdrs=(), dwarf=None, extra_flags=0):
    """ELF matching the model image. Out.elf: progbits | nobits | note | noalloc | empty | absent"""
    w = ElfWriter(bits, little)
    for o in img.outs:
        if o.elf == 'absent':
            continue
        size = 0 if o.elf == 'empty' else o.size
        if o.elf == 'noalloc':
            w.section(o.name, 'progbits', o.addr, data=b'', alloc=False)
            w.sections[-1][5] = size
        elif o.elf == 'nobits':
            w.section(o.name, 'nobits', o.addr, size=size)
        elif o.elf == 'note':
            w.section(o.name, 'note', o.addr, data=b'')
            w.sections[-1][5] = size
        else:
            # section contents are never looked at: only the header carries the size
            w.section(o.name, 'progbits', o.addr, data=b'')
            w.sections[-1][5] = size
    for name, kind, size in extra_shdrs:
        w.section(name, kind, 0 if name.endswith('0') else 0x1000, data=b'')
        w.sections[-1][5] = size
    for sec in w.sections:
        sec[2] |= extra_flags
    for s in img.symbols or []:
        w.symbol(s['name'], s['addr'], s['size'], STT[s['type']], BIND[s.get('bind', 'global')],
                 s.get('shndx', 1), s.get('other', 0))
    if dwarf:
        dwarf(w)
    return w.build()
