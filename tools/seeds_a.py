"""Planted bugs, first series: one per property, written from the property text and the code."""
MM, MF, EL = 'esp_idf_size/memorymap.py', 'esp_idf_size/mapfile.py', 'esp_idf_size/elf.py'
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


seed('s01-superseded-then-empty', 'C01',
     'a superseded input section followed by an empty input section and then another one at the same address',
     'the superseded input section keeps its size, its archive gets bytes that are not in the image',
     [(MF, "            if last_input_section['address'] == input_section['address']:\n",
       "            if last_input_section['address'] == input_section['address'] and input_section['size']:\n")],
     '''
a = 0x400D0020
m = mapfile([('.flash.rodata', 0x3F400020, [
    ' .rodata.str1.1 @DOT@        0x9 libghost.a(g.o)',
    ' .rodata.str1.1 @DOT@        0x0 libempty.a(e.o)',
    ('.rodata.str1.1', 0x20, 'liba.a(a.o)')])])
r = js('--archives', '--format', 'json2', put('p', m))
check({k: v['size'] for k, v in r.items()} == {'liba.a': 0x20}, f'superseded input section contributes nothing: {list(r)}')
''')

seed('s02-used-of-emptied-type', 'C02',
     'a memory type whose sections all consist of padding only, reported without --show-unused',
     'used bytes of the memory type differ from the sum of its (removed) sections',
     [(MM, "        mem_type_info['used'] = 0\n        for section_name, section_info in mem_type_info['sections'].items():\n",
       "        if mem_type_info['sections']:\n            mem_type_info['used'] = 0\n"
       "        for section_name, section_info in mem_type_info['sections'].items():\n")],
     '''
m = mapfile([('.dram0.data', 0x3FFB0000, [('fill', 16)]), ('.flash.text', 0x400D0020, [('.text.a', 4, 'liba.a(a.o)')])])
r = js('--format', 'raw', put('p', m))
for n, t in r['memory_types'].items():
    check(t['used'] == sum(s['size'] for s in t['sections'].values()), f'{n}: used is the sum of sections')
''')

seed('s03-alias-first-only', 'C03',
     'a dual-mapped memory with two regions, of which the second one is also mapped on the other bus',
     'the second bus view of a region is counted again unless it mirrors the first region of the type',
     [(MM, "            for mem_type_reg in memory_types_regions[mem_type_alias]:\n",
       "            for mem_type_reg in memory_types_regions[mem_type_alias][:1]:\n")],
     '''
regs = [('a', 0x3FC88000, 0x1000), ('b', 0x3FC90000, 0x2000), ('b_i', 0x40380000, 0x2000), ('f', 0x42000020, 0x1000)]
m = mapfile([('.flash.text', 0x42000020, [('.text.a', 4, 'liba.a(a.o)')])], 'esp32s3', regs)
r = js('--format', 'raw', '--show-unused', put('p', m))
check(r['memory_types']['DIRAM']['size'] == 0x3000, 'capacity of the dual-mapped memory is counted once')
''')

seed('s04-symbol-split-twice', 'C04',
     'a symbol spanning two memory regions and overflowing the second one, so that it is split twice',
     'the size of the second part of the symbol is wrong, symbols no longer add up to the object file',
     [(MM, "                            symbol2['address'] = split_addr\n", "")],
     '''
regs = [('a', 0x3FFB0000, 0x100), ('b', 0x3FFB0100, 0x100), ('c', 0x40080000, 0x1000)]
m = mapfile([('.dram0.data', 0x3FFB0000, [('.data.x', 0x280, 'liba.a(a.o)')])], 'esp32', regs)
r = js('--format', 'raw', put('p', m))
for n, s in r['memory_types']['DRAM']['sections'].items():
    o = s['archives']['liba.a']['object_files']['a.o']
    check(o['size'] == s['size'] == sum(x['size'] for x in o['symbols'].values()), f'symbol in {n} divided exactly')
''')

seed('s05-image-notes', 'C05',
     'an ELF with an allocated section that is neither program data nor zero-initialised (a note, an init array)',
     'the image size includes allocated sections of other types',
     [(MM, "        if info.sh_type != SHT_PROGBITS:\n", "        if info.sh_type == SHT_NOBITS:\n"),
      (MM, "from .elf import SHF_ALLOC, SHT_PROGBITS, STT_FUNC,", "from .elf import SHF_ALLOC, SHT_NOBITS, STT_FUNC,")],
     '''
m = mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'liba.a(a.o)')]),
             ('.dram0.bss', 0x3FFB0000, [('.bss.a', 0x20, 'liba.a(a.o)')])])
e = elf([('.flash.text', 1, 6, 0x400D0020, 0x40), ('.dram0.bss', 8, 3, 0x3FFB0000, 0x20), ('.note.id', 7, 2, 0x400D0060, 0x24)])
r = js('--format', 'raw', put('p', m, e))
check(r['image_size'] == 0x40, f'image size counts program data only ({r["image_size"]})')
''')

seed('s06-alias-symbols', 'C06',
     'two sized symbols at the same address (an alias) in one input section',
     'only one of several symbols at an address is listed',
     [(MM, "        # Append '()' to function symbol\n",
       "        if isec['symbols'] and isec['symbols'][-1]['address'] == sym_addr:\n"
       "            # Alias of the symbol added just before\n            continue\n\n"
       "        # Append '()' to function symbol\n")],
     '''
m = mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'liba.a(a.o)')])])
e = elf([('.flash.text', 1, 6, 0x400D0020, 0x40)], [('f', 0x400D0020, 0x20, 0x12), ('f_alias', 0x400D0020, 0x20, 0x22)])
r = js('--format', 'json2', '--archive-details', 'liba.a', put('p', m, e))
check(sorted(v['abbrev_name'] for v in r.values()) == ['f()', 'f_alias()'], f'all symbols are listed: {list(r)}')
''')

seed('s07-diff-shares-ref', 'C07',
     'an object file that is present only in the reference; the reference map is used again after diff()',
     'diff() modifies the reference memory map (symbols of a removed object file become zero)',
     [(MM, "                        object_files_diff[object_file_name_ref] = copy.deepcopy(object_file_info_ref)\n",
       "                        object_files_diff[object_file_name_ref] = copy.copy(object_file_info_ref)\n")],
     '''
import copy
from esp_idf_size import memorymap
a = put('a', mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'liba.a(a.o)')])]))
b = put('b', mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'liba.a(a.o)'), ('.text.b', 8, 'liba.a(b.o)')])]))
cur, ref = memorymap.get(a), memorymap.get(b)
keep = copy.deepcopy(ref)
memorymap.diff(cur, ref)
check(ref == keep, 'diff() leaves its inputs alone')
''')

seed('s08-unify-diff-lost', 'C08',
     'a diff of two projects unified, with colliding abbreviated names below the section level',
     'differences of merged archives, object files and symbols are those of the last one instead of the sum',
     [(MM, "                unified_item_info['size_diff'] += original_item_info['size_diff']\n",
       "                unified_item_info['size_diff'] = original_item_info['size_diff']\n")],
     '''
a = put('a', mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'x/liba.a(a.o)'), ('.text.a', 0x20, 'y/liba.a(a.o)')])]))
b = put('b', mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x30, 'x/liba.a(a.o)'), ('.text.a', 0x10, 'y/liba.a(a.o)')])]))
r = js('--format', 'raw', '--unify', '--diff', b, a)
t = r['memory_types']['Flash Code']['sections']['.text']
check(t['archives']['liba.a']['size_diff'] == 0x20, 'unified difference is the sum of differences')
''')

seed('s09-remain-clamped', 'C09',
     'a memory type that overflows (used exceeds total), shown as table or CSV',
     'remaining bytes in table/CSV are not total minus used and disagree with JSON',
     [('esp_idf_size/format_table.py', "            mem_type_info['remain'] = mem_type_info['size'] - mem_type_info['used']\n",
       "            mem_type_info['remain'] = max(mem_type_info['size'] - mem_type_info['used'], 0)\n")],
     '''
import csv
regs = [('d', 0x3FFB0000, 0x100), ('i', 0x40080000, 0x1000)]
m = put('p', mapfile([('.dram0.data', 0x3FFB0000, [('.data.x', 0x180, 'liba.a(a.o)')])], 'esp32', regs))
rows = list(csv.reader(run('--format', 'csv', m).stdout.splitlines()))
j = js('--format', 'json2', m)
d = next(r for r in rows if r[0] == 'DRAM')
jd = next(x for x in j['layout'] if x['name'] == 'DRAM')
check(int(d[3]) == int(d[4]) - int(d[1]) == jd['free'], f'remain is total - used: {d} {jd["free"]}')
''')

seed('s10-files-by-basename', 'C10',
     'two archives of the same base name in different directories containing an object of the same name',
     'the per-file report merges object files of different archives into one row',
     [(MM, "        object_file_name_full = ':'.join([archive_name, object_file_name])\n",
       "        object_file_name_full = ':'.join([archive_info['abbrev_name'], object_file_name])\n")],
     '''
m = put('p', mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'x/liba.a(a.o)'), ('.text.a', 0x20, 'y/liba.a(a.o)')])]))
r = js('--format', 'json2', '--files', m)
check({k: v['size'] for k, v in r.items()} == {'x/liba.a:a.o': 0x40, 'y/liba.a:a.o': 0x20}, f'one row per object file {list(r)}')
''')

seed('s11-sort-sections-by-used', 'C11',
     'a summary sorted by difference in the Used [%] column, with sections whose size order differs',
     'sections inside a memory type are always ordered by their size difference column instead of the requested one',
     [('esp_idf_size/format_table.py',
       "        sections_sorted = memorymap.sort_dict_by_key(mem_type_info['sections'], sort_key, args['sort_reverse'])\n",
       "        section_key = 'used' if sort_key in ('pct', 'pct_diff') else sort_key\n"
       "        sections_sorted = memorymap.sort_dict_by_key(mem_type_info['sections'], section_key, args['sort_reverse'])\n")],
     '''
import csv
def mk(n, x, y):
    return put(n, mapfile([('.dram0.data', 0x3FFB0000, [('.data.x', x, 'liba.a(a.o)')]), ('.dram0.bss', 0x3FFB1000, [('.bss.x', y, 'liba.a(a.o)')])]))
a, b = mk('a', 0x100, 0x300), mk('b', 0x10, 0x2F0)
rows = list(csv.reader(run('--format', 'csv', '--sort-diff', '--sort', '2', '--diff', b, a).stdout.splitlines()))
names = [r[0].strip() for r in rows[1:]]
check(names.index('.data') < names.index('.bss'), f'sections ordered by the difference of the percentage: {names}')
''')

seed('s12-filter-case', 'C12',
     'names that differ from the pattern in case only',
     'filter patterns match case-insensitively, rows that do not match are kept',
     [(MM, "            if fnmatch(name, f'*{pattern}*'):\n", "            if fnmatch(name.lower(), f'*{pattern}*'.lower()):\n")],
     '''
import csv
m = put('p', mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'x/libFoo.a(a.o)'), ('.text.a', 0x20, 'y/libfoo.a(a.o)')])]))
rows = list(csv.reader(run('--format', 'csv', '--archives', '-F', 'Foo', m).stdout.splitlines()))
check([r[0] for r in rows[1:]] == ['libFoo.a'], f'exactly the matching rows are kept: {rows[1:]}')
''')

seed('s13-trim-by-size', 'C13',
     'a diff in which the capacity of a memory type changed but its usage did not',
     'a memory type whose own (usage) difference is zero is shown in the diff',
     [(MM, "for k, v in memory_map['memory_types'].items() if changed(v['used_diff'])}\n",
       "for k, v in memory_map['memory_types'].items() if changed(v['used_diff'] or v['size_diff'])}\n")],
     '''
import csv
def mk(n, size, x):
    return put(n, mapfile([('.dram0.data', 0x3FFB0000, [('.data.x', 0x40, 'liba.a(a.o)')]), ('.iram0.text', 0x40080000, [('.text.x', x, 'liba.a(a.o)')])],
               'esp32', [('d', 0x3FFB0000, size), ('i', 0x40080000, 0x1000)]))
rows = list(csv.reader(run('--format', 'csv', '--diff', mk('b', 0x800, 4), mk('a', 0x1000, 8)).stdout.splitlines()))
check([r[0].strip() for r in rows[1:]] == ['IRAM', '.text'], f'unchanged entries are hidden: {rows[1:]}')
''')

seed('s14-deps-undefined-first', 'C14',
     'a symbol referenced by several objects of one archive of which the first is in an archive not in the image',
     'references after a not linked archive are dropped, edges are missing',
     [('esp_idf_size/deps.py',
       "        refs_filtered = [(arch, obj) for arch, obj in refs[1:] if arch in archives and arch != def_archive]\n",
       "        refs_filtered = []\n        for arch, obj in refs[1:]:\n            if arch not in archives:\n                break\n"
       "            if arch != def_archive:\n                refs_filtered.append((arch, obj))\n")],
     '''
m = mapfile([('.flash.text', 0x400D0020, [('.text.f', 0x40, 'liba.a(a.o)'), ('.text.g', 0x20, 'libb.a(b.o)')])],
            crt=[('f', ['liba.a(a.o)', 'libgone.a(g.o)', 'libb.a(b.o)'])])
e = elf([('.flash.text', 1, 6, 0x400D0020, 0x60)], [('f', 0x400D0020, 0x40, 0x12), ('g', 0x400D0060, 0x20, 0x12)])
r = js('--format', 'json2', '--archive-dependencies', put('p', m, e))
check(r.get('libb.a', {}).get('archives', {}).get('liba.a', {}).get('symbols') == ['f'], f'edge libb.a -> liba.a present: {r}')
''')

seed('s15-partial-on-interrupt', 'C15',
     'an interrupt (Ctrl-C) while the report is being rendered, with an existing output file',
     'the partial report replaces the previous contents of the output file',
     [('esp_idf_size/main.py', "    except KeyboardInterrupt:\n        sys.exit(1)\n",
       "    except KeyboardInterrupt:\n        if ofile is not None and ofile.getvalue():\n"
       "            # Keep what was generated so far.\n            _write_output_file(args['output_file'], ofile.getvalue())\n        sys.exit(1)\n")],
     '''
from esp_idf_size import main, log
m = put('p', mapfile([('.flash.text', 0x400D0020, [('.text.f', 0x40, 'liba.a(a.o)'), ('.text.g', 0x20, 'libb.a(b.o)')])]))
out = os.path.join(TMP, 'out.csv')
with open(out, 'w') as f:
    f.write('previous\\n')
real, n = log.print, [0]
def stop(*a, **k):
    n[0] += 1
    if n[0] == 3:
        raise KeyboardInterrupt
    real(*a, **k)
log.print = stop
try:
    main.main.main(args=['--format', 'csv', '--archives', '-o', out, m], standalone_mode=True)
    rc = 0
except SystemExit as e:
    rc = e.code
if n[0] >= 3:
    check(rc != 0 and open(out).read() == 'previous\\n', 'interrupted run leaves the output file alone')
''')

seed('s16-no-regions-header', 'C16',
     'a map file whose memory configuration is cut off before the table of regions',
     'a truncated map file without any memory region produces a (bogus) report and exit status zero',
     [(MF, "        if not found or not header:\n", "        if not found:\n")],
     '''
m = mapfile([('.flash.text', 0x400D0020, [('.text.f', 0x40, 'liba.a(a.o)')])])
lines = m.splitlines()
i = next(i for i, l in enumerate(lines) if l.startswith('Name '))
j = next(i for i, l in enumerate(lines) if l.startswith('*default*'))
r = run('--format', 'json2', put('p', '\\n'.join(lines[:i] + lines[j + 1:]) + '\\n'))
check(r.returncode != 0 and 'Traceback' not in r.stderr, f'map without memory configuration is rejected: {r.stdout[:80]}')
''')

seed('s17-json-cache', 'C17',
     'one process analysing the same build directory twice, with the project files changed in between',
     'the second call uses the project description of the first one',
     [(MM, "def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:\n",
       "@functools.lru_cache(maxsize=None)\ndef _load_json_file(fn: str) -> Optional[Dict[str, Any]]:\n"),
      (MM, "import copy\nimport json\n", "import copy\nimport functools\nimport json\n")],
     '''
from esp_idf_size import memorymap
t = mapfile([('.flash.text', 0x400D0020, [('.text.f', 0x40, 'liba.a(a.o)')])])
p = put('p', t)
r1 = memorymap.get(p)
put('p', t, desc={'app_elf': 'app.elf', 'target': 'esp32s2'})
r2 = memorymap.get(p)
check((r1['target'], r2['target']) == ('esp32', 'esp32s2'), f'result depends on the inputs only: {r2["target"]}')
''')

seed('s18-outer-component', 'C18',
     'LTO analysis of a project with a component whose directory lies inside the directory of another component',
     'symbols are attributed to the outer component',
     [(MM, "key=lambda c: len(c['component_path']), reverse=True)]\n", "key=lambda c: c['component_path'])]\n")],
     '''
import struct
def attr(*v): return bytes(v)
abbrev = bytes([1, 0x11, 1, 0x03, 0x08, 0, 0,  2, 0x2E, 0, 0x11, 0x01, 0, 0,  0])
def cu(name, addr):
    body = bytes([1]) + name.encode() + b'\\0' + bytes([2]) + struct.pack('<L', addr) + b'\\0'
    hdr = struct.pack('<HLB', 4, 0, 4)
    return struct.pack('<L', len(hdr) + len(body)) + hdr + body
info = cu('/p/components/net/tcp/t.c', 0x400D0020) + cu('/p/components/net/n.c', 0x400D0060)
m = mapfile([('.flash.text', 0x400D0020, [('.text', 0x80, '/tmp/cc.ltrans0.ltrans.o')])])
e = elf([('.flash.text', 1, 6, 0x400D0020, 0x80)], [('t', 0x400D0020, 0x40, 0x12), ('n', 0x400D0060, 0x40, 0x12)],
        [('.debug_info', info), ('.debug_abbrev', abbrev)])
bd = os.path.join(TMP, 'p')
desc = {'app_elf': 'app.elf', 'target': 'esp32', 'build_dir': bd, 'build_component_info': {
    'net': {'dir': '/p/components/net', 'file': bd + '/esp-idf/net/libnet.a'},
    'tcp': {'dir': '/p/components/net/tcp', 'file': bd + '/esp-idf/tcp/libtcp.a'}}}
r = js('--format', 'json2', '--archives', '--lto', put('p', m, e, desc=desc))
check({k: v['size'] for k, v in r.items()} == {'esp-idf/net/libnet.a': 0x40, 'esp-idf/tcp/libtcp.a': 0x40}, f'innermost component: {r.keys()}')
''')

seed('s19-ref-udata-size', 'C19',
     'a debug information entry with an attribute of a variable-length block form of 128 bytes or more',
     'the length of DW_FORM_block is read as one byte, so following entries are not found',
     [(EL, "        elif form == DW_FORM_block:\n            size, offset = self._elf.get_uleb128(data, offset)\n",
       "        elif form == DW_FORM_block:\n            size, offset = self._elf.get_uint8(data, offset)\n")],
     '''
import struct
from esp_idf_size.elf import Elf
def mk(n):
    abbrev = bytes([1, 0x11, 1, 0x03, 0x08, 0, 0,  2, 0x34, 0, 0x1C, 0x09, 0x0B, 0x0B, 0, 0,  0])
    blk = bytes([n]) if n < 128 else bytes([0x80 | (n & 0x7F), n >> 7])
    body = bytes([1]) + b'/x.c\\0' + bytes([2]) + blk + bytes([0]) * n + bytes([0x5A]) + b'\\0'
    hdr = struct.pack('<HLB', 4, 0, 4)
    info = struct.pack('<L', len(hdr) + len(body)) + hdr + body
    fn = os.path.join(TMP, f'{n}.elf')
    with open(fn, 'wb') as f:
        f.write(elf([], [], [('.debug_info', info), ('.debug_abbrev', abbrev)]))
    return [d for d in Elf(fn).CUs[0].DIEs.values() if d['tag'] == 0x34][0]
for n in (3, 127, 128, 200):
    try:
        ok = mk(n)['attrs'][0x0B]['value'] == 0x5A
    except Exception as e:
        ok = False
    check(ok, f'attribute following a block of {n} bytes is decoded')
''')

seed('s20-stem-first-dot', 'C20',
     'a build directory with several executables whose names contain dots and share the part before the first one',
     'the project description of another executable is used',
     [(MM, "    map_stem = os.path.splitext(os.path.basename(map_fn))[0]\n    elf_stem = os.path.splitext(os.path.basename(app_elf))[0]\n",
       "    map_stem = os.path.basename(map_fn).split('.')[0]\n    elf_stem = os.path.basename(app_elf).split('.')[0]\n")],
     '''
from esp_idf_size import memorymap
t = mapfile([('.flash.text', 0x400D0020, [('.text.f', 0x40, 'liba.a(a.o)')])])
p = put('p', t, stem='app.factory', desc={'app_elf': 'app.ota.elf', 'target': 'esp32s2'})
check(memorymap.get(p)['target'] == 'esp32', 'project description of another executable is not used')
''')

seed('s21-force-terminal-color', 'C21',
     '--no-color together with --force-terminal',
     'colours are emitted although --no-color was given',
     [('esp_idf_size/main.py', "            no_color=args['no_color'],\n", "            no_color=args['no_color'] and not args['force_terminal'],\n")],
     '''
import re
p = put('p', mapfile([('.flash.text', 0x400D0020, [('.text.f', 0x40, 'liba.a(a.o)')])]))
r = run('--no-color', '--force-terminal', '--archives', p, env={'TERM': 'xterm-256color'})
check(not re.search('\\x1b\\\\[[0-9;]*3[0-9]', r.stdout), 'no colours with --no-color')
''')
