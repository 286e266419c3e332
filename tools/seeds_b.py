"""Planted bugs, second series: found while probing the checks with many small changes."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
MM, MF, EL, MA = ('esp_idf_size/memorymap.py', 'esp_idf_size/mapfile.py', 'esp_idf_size/elf.py', 'esp_idf_size/main.py')
FT, FJ = 'esp_idf_size/format_table.py', 'esp_idf_size/format_json.py'
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


seed('t01-archive-normpath', 'C01',
     'two archives whose paths differ only in redundant components (./, //, ..)',
     'archives listed under different paths in the map are merged and renamed',
     [(MM, "            archive_name = input_section['archive']\n", "            archive_name = os.path.normpath(input_section['archive'])\n")],
     '''
m = mapfile([('.flash.text', 0x400D0020, [('.text.a', 4, 'x/../liba.a(a.o)'), ('.text.b', 8, 'liba.a(b.o)')])])
r = js('--archives', '--no-abbrev', '--format', 'json2', put('p', m))
check({k: v['size'] for k, v in r.items()} == {'x/../liba.a': 4, 'liba.a': 8}, f'archives as in the map: {list(r)}')
''')

seed('t02-ext-ram-used', 'C02',
     'two sections dedicated to external RAM',
     'used bytes of the external RAM type are those of its last section',
     [(MM, "            memory_map[ext_ram_alias]['used'] += map_section['size']", "            memory_map[ext_ram_alias]['used'] = map_section['size']")],
     '''
m = mapfile([('.ext_ram.bss', 0x3F800000, [('.bss.a', 4, 'liba.a(a.o)')]), ('.ext_ram_noinit', 0x3F800004, [('.noinit.b', 8, 'liba.a(b.o)')])],
            regions=[('dram0_0_seg', 0x3FFB0000, 0x1000), ('extern_ram_seg', 0x3F800000, 0x1000)])
r = js('--format', 'raw', '--show-unused', put('p', m))
for n, t in r['memory_types'].items():
    check(t['used'] == sum(s['size'] for s in t['sections'].values()), f'{n}: used is the sum of sections')
''')

seed('t03-flash-overflow-capacity', 'C03',
     'more bytes placed in a flash memory type than its region has',
     'the capacity of flash is reported although it was not asked for',
     [(MM, "        if 'flash' in mem_type_name.lower():\n", "        if 'flash' in mem_type_name.lower() and mem_type_info['used'] <= mem_type_info['size']:\n")],
     '''
m = mapfile([('.flash.text', 0x400D0000, [('.text.a', 0x2000, 'liba.a(a.o)')])],
            regions=[('iram0_2_seg', 0x400D0000, 0x1000), ('dram0_0_seg', 0x3FFB0000, 0x1000), ('rtc', 0x50000000, 0x100)])
r = js('--format', 'raw', '--show-unused', put('p', m))
check(r['memory_types']['Flash Code']['size'] == 0, f'capacity of flash is not considered: {r["memory_types"]["Flash Code"]["size"]}')
''')

seed('t07-same-path-no-diff', 'C07',
     'a project compared with itself',
     'no difference is computed, the reference is missing from the report',
     [(MA, "            memmap = memorymap.diff(memmap, memmap_ref)\n",
       "            if memmap['project_path'] != memmap_ref['project_path']:\n"
       "                memmap = memorymap.diff(memmap, memmap_ref)\n")],
     '''
p = put('p', mapfile([('.flash.text', 0x400D0020, [('.text.a', 4, 'liba.a(a.o)')])]))
r = js('--format', 'raw', '--diff', p, p)
check(r['project_path_diff'] == r['project_path'] and r['target_diff'] == r['target'], 'reference of the difference is named')
''')

seed('t08-digits-abbreviated-away', 'C08',
     'sections whose last name component ends with different digits',
     'unify merges sections which have different abbreviated names',
     [(MM, "    split = section_name.split('.')\n", "    split = section_name.rstrip('0123456789').split('.')\n")],
     '''
m = mapfile([('.flash.rodata0', 0x3F400020, [('.rodata.a', 4, 'liba.a(a.o)')]), ('.flash.rodata1', 0x3F400024, [('.rodata.b', 8, 'liba.a(b.o)')])])
r = js('--format', 'raw', '--unify', put('p', m))
s = {n: x['size'] for n, x in r['memory_types']['Flash Data']['sections'].items()}
check(s == {'.rodata0': 4, '.rodata1': 8}, f'sections keep their abbreviated names: {s}')
''')

seed('t09-total-of-empty-image', 'C09',
     'a project with only zero-initialised data, so that its image is empty',
     'the JSON summary reports used bytes as image size',
     [(FJ, "'total_size': memmap['image_size'],", "'total_size': memmap['image_size'] or sum(t['used'] for t in memmap['memory_types'].values()),")],
     '''
p = put('p', mapfile([('.dram0.bss', 0x3FFB0000, [('.bss.a', 4, 'liba.a(a.o)')])]))
r = js('--format', 'json2', p)
check(r['total_size'] == js('--format', 'raw', p)['image_size'] == 0, f'total size {r["total_size"]}')
''')

seed('t11-last-column', 'C11',
     'sorting by the last column with a negative number, where the totals are ordered differently',
     'rows are sorted by the first column',
     [(FT, "        sort_key_idx = args['sort'] - 1 if args['sort'] > 0 else args['sort']\n",
       "        sort_key_idx = abs(args['sort']) - 1 if args['sort'] > -2 else args['sort']\n")],
     '''
m = mapfile([('.iram0.text', 0x40080000, [('.text.a', 0x100, 'liba.a(a.o)'), ('.text.b', 0x10, 'libb.a(b.o)')]),
             ('.flash.text', 0x400D0020, [('.text.c', 4, 'liba.a(a.o)'), ('.text.d', 8, 'libb.a(b.o)')])])
p = run('--archives', '--format', 'csv', '--sort', '-1', put('p', m))
rows = [l.replace('"', '').split(',') for l in p.stdout.strip().splitlines()]
k = [int(r[-1]) for r in rows if r[0].startswith('lib')]
check(len(k) == 2 and k == sorted(k, reverse=True), f'ordered by the last column: {k}')
''')

seed('t12-short-patterns', 'C12',
     'a filter consisting of a single character',
     'the pattern no longer matches inside of names',
     [(MM, "            if fnmatch(name, f'*{pattern}*'):\n", "            if fnmatch(name, f'*{pattern}*' if len(pattern) > 1 else pattern):\n")],
     '''
m = mapfile([('.flash.text', 0x400D0020, [('.text.a', 4, 'liba.a(a.o)'), ('.text.b', 8, 'libq.a(b.o)')])])
p = run('--archives', '--format', 'csv', '-F', 'q', put('p', m))
check('libq.a' in p.stdout and 'liba.a' not in p.stdout, f'rows containing q: {p.stdout}')
''')

seed('t17-passed-elf-ignored', 'C17',
     'an ELF object passed to the library while the file on disk was replaced since',
     'the result depends on what is on the disk, not on the passed object',
     [(MM, "    elf = elf or get_elf(map_fn, proj_desc)\n", "    elf = get_elf(map_fn, proj_desc) or elf\n")],
     '''
m = mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'liba.a(a.o)')])])
e = elf([('.flash.text', 1, 6, 0x400D0020, 0x40)], [('first', 0x400D0020, 0x40, 0x12)])
p = put('p', m, e)
sys.path.insert(0, REPO)
from esp_idf_size import memorymap
obj = memorymap.get_elf(str(p))
a = memorymap.get(str(p), load_symbols=True, elf=obj)
f = os.path.join(os.path.dirname(str(p)), 'app.elf')
with open(f + '.new', 'wb') as fh:
    fh.write(elf([('.flash.text', 1, 6, 0x400D0020, 0x40)], [('second', 0x400D0020, 0x40, 0x12)]))
os.replace(f + '.new', f)
b = memorymap.get(str(p), load_symbols=True, elf=obj)
check(a == b, 'the passed ELF object is used')
''')

seed('t20-elf-by-map-name', 'C20',
     'a project description naming an ELF in another directory, and an unrelated ELF next to the map',
     'an ELF which the description does not name is used',
     [(MM, "    elf_fn = os.path.join(dirname, proj_desc['app_elf'])\n",
       "    elf_fn = os.path.join(dirname, proj_desc['app_elf'])\n"
       "    if not os.path.isfile(elf_fn):\n        elf_fn = os.path.splitext(map_fn)[0] + '.elf'\n")],
     '''
m = mapfile([('.flash.text', 0x400D0020, [('.text.a', 0x40, 'liba.a(a.o)')])])
e = elf([('.flash.text', 1, 6, 0x400D0020, 0x40)], [('fn', 0x400D0020, 0x40, 0x12)])
p = put('p', m, e, desc={'app_elf': 'out/app.elf', 'target': 'esp32'})
r = js('--format', 'raw', p)
s = r['memory_types']['Flash Code']['sections']['.flash.text']['archives']['liba.a']['object_files']['a.o']['symbols']
check(list(s) == ['.text.a'], f'the ELF named by the description does not exist: {list(s)}')
''')
