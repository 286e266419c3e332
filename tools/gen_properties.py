#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept so that the text has one source."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


TESTS = ('The repository tests compare a few recorded projects against stored outputs (and here only the '
         '--doc smoke test runs); ')

prop('C01', 'Every linked byte is charged to its own section, archive and object file',
     'For every link map the linker can write, each input section that occupies memory is reported with exactly the '
     'size the map records, under the output section, archive and object file the map names (an object linked without '
     'an archive goes to "(exe)"), and all input sections of one object file in one output section add up. '
     'Padding, fill patterns and explicit data bytes are charged to the output section only, never to an archive. '
     'An input section that takes no room in the final image (superseded at the same address by a later input section '
     'or by padding, or placed outside its output section) contributes nothing and disturbs no neighbour. '
     'A consistent map is processed without any warning; one whose input sections leave an unexplained gap or overlap is still '
     'processed, but with a warning.',
     ['inputs'],
     'all map files over an alphabet of input-section kinds (plain, long name on two lines, COMMON, object without '
     'archive, paths with spaces and parentheses, zero-size, superseded, out of range, fill, fill with pattern, '
     'explicit data, relaxation notes, symbol lines), for every sequence of these up to the depth bound and every '
     'number of output sections up to the bound',
     TESTS + 'an adjacency of two line kinds that no recorded map contains is never parsed.',
     ['esp_idf_size/mapfile.py', 'esp_idf_size/memorymap.py'],
     [('line state machine of the linker map parser', 'esp_idf_size/mapfile.py MapFile._get_sections'),
      ('archive/object splitting', 'esp_idf_size/mapfile.py MapFile._get_archive_object_file'),
      ('aggregation into archives and object files', 'esp_idf_size/memorymap.py _add_archives_to_sections')],
     ['memorymap.get()', 'esp_idf_size MAP --format raw', '--archives/--files --format json2'])

prop('C02', 'Sizes add up at every level of every reported memory map',
     'In every memory map the tool produces, under any combination of options that build or transform it (symbols '
     'loaded or not, unused entries dropped, unified, diffed), the used bytes of a memory type equal the sum of its '
     'sections, every archive equals the sum of its object files, and the archives of a section never exceed the '
     'section. The same equalities hold for all difference values. No byte of a reported output section appears in '
     'two places or is lost, so the totals over all memory types equal the total of the sections that were placed.',
     ['inputs', 'configurations'],
     'all layouts of up to the bound of sections/regions/input sections, crossed with every combination of '
     'map-building and map-transforming options',
     TESTS + 'the sums are never checked for layouts where sections split, overflow, merge or lose all their archives.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/main.py'],
     [('section splitting', 'esp_idf_size/memorymap.py _split_map_sections'),
      ('memory type accumulation', 'esp_idf_size/memorymap.py _get_mem_type_map'),
      ('unused removal with re-computed usage', 'esp_idf_size/memorymap.py remove_unused'),
      ('aggregation', 'esp_idf_size/memorymap.py unify, diff')],
     ['memorymap.get/diff/unify', '--format raw'])

prop('C03', 'Memory type capacity equals the memory regions linked into it, counted once',
     'For every supported chip and every memory configuration in the link map, the total size of a memory type equals '
     'the number of bytes of the map\'s memory regions that fall into that type of the chip\'s memory layout, where a '
     'region crossing types is divided at the type boundaries and a repetition or the second bus view of an already '
     'counted region is not counted again. Regions outside every memory type are skipped with a warning that '
     'names them, and processing always terminates. By default the capacity of flash memory types is reported as '
     'unknown (zero), and as computed when the flash size is asked for.',
     ['inputs', 'configurations'],
     'all 13 chips x all sequences of up to the bound of regions whose start and end are taken from the boundary '
     'points of the chip layout (start, inside, last byte, end, crossing, second bus view, zero length, outside)',
     TESTS + 'only the region layouts of the recorded projects are exercised.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/chip_info'],
     [('region splitting', 'esp_idf_size/memorymap.py _split_memory_regions'),
      ('alias detection', 'esp_idf_size/memorymap.py _get_mem_type_map'),
      ('chip layouts', 'esp_idf_size/chip_info/*.yaml'),
      ('flash capacity masking', 'esp_idf_size/memorymap.py ignore_flash_size')],
     ['memorymap.get()', '--format json2', '--use-flash-size'])

prop('C04', 'Every output section lands in the memory type its addresses belong to',
     'For every supported chip, every part of a reported output section is accounted in the memory type to which its '
     'address belongs through a linked memory region; a section, its archives, object files and symbols that cross a '
     'region or type boundary are divided exactly there, without phantom entries. Sections dedicated to external RAM '
     'go to the external RAM type whenever the chip has one. A part that starts outside all regions is charged '
     'entirely to the nearest region below it under the section\'s name with "_overflow" appended and a warning naming '
     'the memory type and section, and if it cannot be charged (no region below, or none above) a warning says that '
     'the section is not accounted.',
     ['inputs', 'configurations'],
     'all 13 chips x all placements of a section start/end relative to every region and type boundary x region '
     'layouts (contiguous, gapped, overlapping, dual-mapped) x section kinds',
     TESTS + 'overflowing and boundary-crossing layouts appear only where a recorded project happened to have one.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/chip_info'],
     [('section splitting', 'esp_idf_size/memorymap.py _split_map_sections'),
      ('region lookup, overflow and external RAM routing', 'esp_idf_size/memorymap.py _get_mem_type_map')],
     ['memorymap.get()', '--format raw', 'stderr warnings'])

prop('C05', 'Only memory-occupying sections are reported and image size is exact',
     'A non-empty output section is reported exactly when it occupies memory: if the project ELF is available, when '
     'that file marks it as allocated; otherwise when its name is one of the known code/data section kinds '
     '(ending with .text, .data, .bss, .rodata, noinit or .vectors, or containing .flash or .eh_frame); address space '
     'placeholders (names ending with dummy or reserved_for_iram) and not-loaded dumps (ending with noload) are never '
     'reported. The total image size equals the bytes that are stored in the binary: all allocated program data '
     '(PROGBITS) sections when the ELF is available, otherwise all reported sections except zero-initialised (.bss) '
     'and uninitialised (noinit) ones.',
     ['inputs', 'configurations'],
     'all sets of up to the bound of output sections over the name alphabet x ELF section kinds (allocated program '
     'data, allocated no-data, not allocated, absent, empty) x ELF present or absent',
     TESTS + 'they do not cover name/flag combinations or runs without the ELF.',
     ['esp_idf_size/memorymap.py'],
     [('section filter', 'esp_idf_size/memorymap.py _filter_map_sections'),
      ('ELF section headers', 'esp_idf_size/memorymap.py _get_elf_sections_headers'),
      ('image size', 'esp_idf_size/memorymap.py _get_image_size')],
     ['memorymap.get()["image_size"]', '--format json2 total_size', '"Total image size" line'])

prop('C06', 'Symbols are attributed to the object file that contains them',
     'With the project ELF, every sized function and data symbol that lies in a reported input section is listed under '
     'exactly that input section\'s section, archive and object file with its ELF size (functions marked with "()"), '
     'several symbols of one name in one object file add up, and every input section without any symbol is represented '
     'by its own name and size. Without the ELF each input section '
     'is represented by its name and size. Symbols outside all reported sections are not listed, and a symbol that '
     'contradicts the link map (crosses the end of its input section or lies after all of them) ends the run with a '
     'diagnostic naming it.',
     ['inputs'],
     'all arrangements of up to the bound of input sections and ELF symbols over kind/binding/size/address alphabets '
     '(section start, middle, end, gap, overlap, same address, same name, unsorted table)',
     TESTS + 'symbol tables with gaps, duplicates or trailing sections are not enumerated.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/elf.py'],
     [('symbol assignment', 'esp_idf_size/memorymap.py _add_symbols_to_sections'),
      ('per-object symbol table', 'esp_idf_size/memorymap.py _add_archives_to_sections')],
     ['memorymap.get()', '--archive-details', '--format raw'])

prop('C07', 'A diff is exactly current minus reference over the union of both maps',
     'For every two memory maps, the diff contains exactly the entries present in either one at every level, each with '
     'the current value (zero if absent) and a difference equal to current minus reference (absent counts as zero), '
     'including used and total sizes, image size, target and project path. Neither input is modified or shared with '
     'the result, diffing a map with itself yields only zero differences, and swapping the two inputs negates every '
     'difference. The command line reports the same differences, with the same treatment of unused entries and flash '
     'capacity on both sides.',
     ['inputs', 'histories'],
     'all ordered pairs of memory maps from the enumerated family (entries added, removed, moved, resized at each of '
     'the five levels, empty maps) and all later mutations of the results',
     TESTS + 'only a couple of recorded pairs are diffed.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/main.py'],
     [('union and subtraction', 'esp_idf_size/memorymap.py diff'),
      ('same preprocessing of both sides', 'esp_idf_size/main.py _run')],
     ['memorymap.diff()', '--diff with all formats'])

prop('C08', 'Unifying only regroups: totals are preserved and names abbreviated',
     'Unifying a memory map merges, at every level below a memory type, all entries with the same abbreviated name '
     'under that name, with sizes and differences equal to the sums of the merged entries and children merged '
     'recursively; memory types, targets, image size and all totals are unchanged and the structure stays that of '
     'a plain memory map. Unifying twice equals unifying once, and the difference of unified maps equals the unified '
     'difference. Reports made with unify show these aggregated sums.',
     ['inputs', 'histories'],
     'all memory maps of the enumerated family with colliding and non-colliding abbreviated names at every level, and '
     'all orders of unify and diff',
     TESTS + 'collisions at more than one level are not covered.',
     ['esp_idf_size/memorymap.py'],
     [('recursive aggregation', 'esp_idf_size/memorymap.py unify'),
      ('unified summaries', 'esp_idf_size/memorymap.py get_archives_summary, get_object_files_summary, '
                            'get_symbols_summary')],
     ['memorymap.unify()', '--unify'])

prop('C09', 'All output formats report the same memory summary',
     'For every project and every option set, the table, text, CSV, JSON, tree and raw summaries state the same memory '
     'types, sections, used and total bytes and differences; remaining bytes are total minus used, percentages are '
     'used divided by total, and their differences are current minus reference. Where the total is unknown the derived '
     'columns are empty in tables and zero in JSON. Sections whose displayed names coincide keep their full sum, the '
     'reported image size is the same everywhere, and abbreviated names are shown unless full names are requested.',
     ['inputs', 'configurations'],
     'all layouts of the enumerated family x formats x {abbrev, no-abbrev, unify, use-flash-size, show-unused, '
     'show-unchanged, diff}',
     TESTS + 'format x option combinations are sampled with one project.',
     ['esp_idf_size/format_table.py', 'esp_idf_size/format_csv.py', 'esp_idf_size/format_json.py',
      'esp_idf_size/format_tree.py', 'esp_idf_size/format_raw.py'],
     [('summary table', 'esp_idf_size/format_table.py get_summary_table'),
      ('CSV from table', 'esp_idf_size/format_csv.py show_table'),
      ('JSON summary', 'esp_idf_size/format_json.py show_summary'),
      ('tree', 'esp_idf_size/format_tree.py show_memmap')],
     ['stdout of every --format'])

prop('C10', 'Archive, file and symbol reports agree with the memory map cell by cell',
     'In the per-archive, per-file and per-symbol reports of every format, each row is one archive, object file or '
     'symbol, each cell equals the bytes (and difference) of that entry in that section and memory type of the memory '
     'map, a memory type cell is the sum of its section cells and the total is the sum of its memory type cells. Rows '
     'exist for exactly the entries present in the memory map, with full names distinguishing equally named entries '
     'and the detail report restricted to the archives of the requested name, failing with a diagnostic (in the '
     'table, CSV and JSON formats) if there is none.',
     ['inputs', 'configurations'],
     'all layouts of the enumerated family (same object name in several archives, same archive basename in several '
     'directories, same symbol in several objects/sections) x reports x formats x {abbrev, unify, diff}',
     TESTS + 'row/cell agreement is not checked for colliding names.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/format_table.py', 'esp_idf_size/format_json.py'],
     [('summaries', 'esp_idf_size/memorymap.py get_archives_summary, get_object_files_summary, get_symbols_summary'),
      ('detail tables', 'esp_idf_size/format_table.py get_*_table')],
     ['--archives', '--files', '--archive-details'])

prop('C11', 'Sorting orders by the requested column and changes nothing else',
     'For every report and every sort column, given by positive or negative number or by its displayed name, rows are '
     'ordered by the numeric value (or difference, if asked) of that column, descending by default and ascending when '
     'reversed; in the summary both the memory types and the sections inside each type are ordered, and JSON and tree '
     'reports are ordered by size or difference at every level. Sorting only permutes rows. A column that does not '
     'exist or holds the row description ends the run with an error and no report.',
     ['inputs', 'configurations'],
     'all reports x all valid column numbers/names and the invalid ones around the range x sort-diff x sort-reverse x '
     'all value orders of up to the bound of rows',
     TESTS + 'orders are compared for one project and few columns.',
     ['esp_idf_size/format_table.py', 'esp_idf_size/memorymap.py'],
     [('table sorting', 'esp_idf_size/format_table.py get_summary_table, _get_table_sorted'),
      ('map sorting', 'esp_idf_size/memorymap.py sort, get_summary_sorted')],
     ['--sort', '--sort-diff', '--sort-reverse'])

prop('C12', 'Filtering keeps exactly the matching rows',
     'In the table and CSV archive, file, symbol and dependency reports and in the DOT report, filtering keeps exactly '
     'the entries whose displayed name contains a part matching at least one given wildcard pattern, with row content '
     'and order as in the unfiltered report. Abbreviated names are matched when abbreviated names are displayed and '
     'full names otherwise. No other output is affected by filters.',
     ['inputs', 'configurations'],
     'all subsets of up to the bound of patterns over the pattern alphabet (*, ?, [seq], [!seq], plain, anchoring, '
     'case, no match) x reports x name sets x {abbrev, no-abbrev, unify}',
     TESTS + 'one or two patterns are tried.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/format_table.py', 'esp_idf_size/format_dot.py'],
     [('row filter', 'esp_idf_size/memorymap.py get_summary_filtered')],
     ['-F/--filter'])

prop('C13', 'Reports hide exactly what is unused or unchanged, and only when asked',
     'Without the show-unused option a report omits exactly the memory types with no used bytes and the sections to '
     'which no archive contributes, with memory type usage reduced accordingly; with it everything is shown. In a diff, '
     'without show-unchanged the table, CSV and tree summaries and trees omit exactly the entries whose own difference '
     'is zero (with everything below them) and archive, file and symbol reports omit exactly the rows with zero total '
     'difference; with it, and without a diff, nothing is omitted. The depth of the tree follows the requested level '
     'of detail.',
     ['inputs', 'configurations'],
     'all pairs of layouts with each level independently changed/unchanged/offsetting x options x formats',
     TESTS + 'offsetting changes and empty sections are not covered.',
     ['esp_idf_size/memorymap.py'],
     [('unused removal', 'esp_idf_size/memorymap.py remove_unused'),
      ('trimming', 'esp_idf_size/memorymap.py trim, rem_summary_unchanged')],
     ['--show-unused', '--show-unchanged', '--diff'])

prop('C14', 'Archive dependencies are exactly the cross-archive symbol references',
     'The dependency report contains an edge from one archive to another exactly when the cross-reference table says '
     'that a symbol defined in the second is referenced from the first, that symbol survived as a function or data '
     'symbol in the ELF, and both archives contribute to the image; an archive never depends on itself. The symbols of '
     'an edge are exactly those symbols, sizes are the archive totals, the reverse report is the exact transpose, and '
     'table, CSV, tree, JSON, raw and DOT show the same graph. Without an ELF or a cross-reference table the run ends '
     'with an error, and a diff option is ignored with a warning.',
     ['inputs', 'configurations'],
     'all cross-reference tables over up to the bound of symbols x definition/reference archive sets x surviving-symbol '
     'sets x formats x {reverse, symbols, no-abbrev, filter}',
     TESTS + 'graphs are compared for one project.',
     ['esp_idf_size/deps.py', 'esp_idf_size/mapfile.py', 'esp_idf_size/format_dot.py'],
     [('cross-reference parsing', 'esp_idf_size/mapfile.py _get_cross_reference_table'),
      ('filtering and graph building', 'esp_idf_size/deps.py')],
     ['--archive-dependencies with all formats'])

prop('C15', 'The output file is written completely or not touched at all',
     'When an output file is requested, it is created or replaced only after the whole report was produced, and then '
     'contains exactly the report that would have gone to standard output, without terminal control sequences; parent '
     'directories are created. If anything fails at any point before the write (unreadable or malformed input, invalid '
     'option, missing data, failure in the middle of rendering), an existing output file keeps its previous contents, '
     'no new file appears and the exit status is non-zero. A failing write itself is reported with an error naming the '
     'file and a non-zero exit status.',
     ['crash_points', 'fault_sequences', 'configurations'],
     'every file operation, every rendering step and every interruption point of a run as the point of failure x '
     'formats x reports x {file absent, present, parent missing, target a directory}',
     TESTS + 'fault points are not enumerated.',
     ['esp_idf_size/main.py'],
     [('buffered rendering, write at the end', 'esp_idf_size/main.py _run, _write_output_file')],
     ['-o/--output-file', 'exit status', 'file contents'])

prop('C16', 'Malformed input ends in a diagnostic, never in a traceback, hang or bogus report',
     'For every corrupted, truncated or unreadable link map, ELF file, project description or configuration file, the '
     'command either produces a report and exits with status zero or prints a diagnostic and exits with a non-zero '
     'status; it never ends in an unhandled exception or runs forever, and the library raises only its documented '
     'exception. A link map without memory configuration or without the linker script section, and one whose memory '
     'regions, output sections or input sections have a size or address that is not a number, is always rejected. Missing or unusable auxiliary files never change what can be '
     'derived from the link map alone, and an ELF file that is truncated is reported when it is left out.',
     ['inputs', 'fault_sequences'],
     'every line-level and token-level mutation (delete, duplicate, truncate, garble) at every position of '
     'representative maps, every truncation point of the ELF, every corrupted header field, every JSON type confusion',
     TESTS + 'no malformed inputs are tested.',
     ['esp_idf_size/mapfile.py', 'esp_idf_size/memorymap.py', 'esp_idf_size/elf.py', 'esp_idf_size/main.py'],
     [('parser errors', 'esp_idf_size/mapfile.py MapFileException'),
      ('error boundary', 'esp_idf_size/main.py _run'),
      ('optional files', 'esp_idf_size/memorymap.py _load_json_file, _load_elf_file')],
     ['exit status', 'stderr', 'MemMapException'])

prop('C17', 'Results depend only on the inputs, not on history or environment',
     'The same inputs and options always give the same output, byte for byte, in one process or many, whatever was '
     'analysed before, in whatever order, from whatever working directory and with whatever hash seed. No call modifies '
     'its input files or the memory maps, map files or ELF objects it was given (other than the map it is documented to '
     'transform), and a passed-in, already parsed map file or ELF gives the same result as letting the tool load it.',
     ['histories', 'configurations'],
     'all sequences up to the depth bound of library and command-line operations over a pool of projects in one '
     'process, each step compared with a fresh process, and all hash seeds/working directories of the bound',
     TESTS + 'every test runs one operation.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/deps.py', 'esp_idf_size/elf.py', 'esp_idf_size/main.py'],
     [('no shared mutable state', 'esp_idf_size/memorymap.py get'),
      ('deterministic order', 'esp_idf_size/deps.py'),
      ('deep copies', 'esp_idf_size/memorymap.py diff')],
     ['stdout of repeated runs', 'return values'])

prop('C18', 'LTO attribution re-distributes object bytes without losing any',
     'When debug information is used for link-time-optimised code, the bytes of objects linked without an archive are '
     're-attributed to the archive of the component whose directory contains the source file that debug information '
     'gives for the symbol (the innermost such component) and to that source file, and whatever has no such symbol '
     'stays where it was; section sizes and the total attributed bytes are unchanged and objects from real archives '
     'are never affected. It is used exactly when requested, or when not specified and the project configuration '
     'enables it, and if project description or ELF are missing or unusable for it a warning is given and nothing changes.',
     ['inputs', 'configurations'],
     'all arrangements of up to the bound of symbols/gaps in archive-less and archived input sections x component '
     'directory layouts (nested, common prefix, none) x debug info presence x option/config settings',
     TESTS + 'no LTO project is among the runnable tests.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/elf.py'],
     [('expansion', 'esp_idf_size/memorymap.py _expand_input_sections'),
      ('symbol to CU mapping', 'esp_idf_size/elf.py Elf.add_cus_to_symbols')],
     ['--lto/--no-lto', 'memorymap.get(use_dwarf=...)'])

prop('C19', 'ELF and DWARF data are decoded exactly as the standards define',
     'For every ELF file of either word size and byte order, section headers and symbols (name, value, size, type, '
     'binding, section) are read as stored, and for every debug information unit of DWARF 2 to 5 in 32-bit or 64-bit '
     'format each attribute value of every supported form, including signed and unsigned variable-length integers of '
     'any length, is decoded to its exact value and length, so that following entries are found. A file that is not '
     'an ELF or uses an unsupported form or version is rejected with the ELF error.',
     ['inputs'],
     'class x byte order x DWARF version x offset size x every form x boundary values of every encoding length x '
     'position of the attribute x tree shapes of entries',
     TESTS + 'ELF decoding is only exercised through one or two toolchain outputs.',
     ['esp_idf_size/elf.py'],
     [('ELF parsing', 'esp_idf_size/elf.py Elf'),
      ('DWARF forms', 'esp_idf_size/elf.py Dwarf_CU.get_attr_value'),
      ('LEB128', 'esp_idf_size/elf.py get_uleb128, get_sleb128')],
     ['elf.Elf', 'symbol to compilation unit association'])

prop('C20', 'Project files next to the map are used exactly when they belong to it',
     'The project description in the directory of the link map is used if and only if the executable it names has the '
     'same base name as the map; the ELF it names is then looked up next to the map, wherever the project was moved. '
     'The chip is taken from a matching project description and otherwise from the link map itself (any of the '
     'supported build system markers); an unknown or undeterminable chip ends the run with an error. Each side of a '
     'diff uses its own project files.',
     ['inputs', 'configurations'],
     'all combinations of project description present/matching/mismatching/relocated, ELF present/absent/corrupt, '
     'target markers present/absent/conflicting, and independent choices for both sides of a diff',
     TESTS + 'multi-executable and relocated projects are not covered in combination.',
     ['esp_idf_size/memorymap.py', 'esp_idf_size/mapfile.py', 'esp_idf_size/main.py'],
     [('description matching', 'esp_idf_size/memorymap.py get_proj_desc'),
      ('ELF lookup', 'esp_idf_size/memorymap.py get_elf'),
      ('target detection', 'esp_idf_size/mapfile.py _get_target')],
     ['memorymap.get()["target"]', 'image size', 'symbols'])

prop('C21', 'Names are reproduced verbatim and machine formats always parse',
     'Whatever characters archive paths, object files, sections, symbols or project paths contain (brackets, quotes, '
     'backslashes, spaces, commas, non-ASCII), every format shows them unchanged, JSON and raw output is one valid '
     'JSON document, CSV output parses to rows of equal width with one cell per column, and DOT is one well-formed '
     'graph. Standard output carries only the report, diagnostics go to standard error, quiet mode prints nothing, '
     'no-color output contains no colours, output that does not go to a terminal (and is not forced to be treated as one) '
     'contains no control sequences at all, and control sequences never change the text of a report.',
     ['inputs', 'configurations'],
     'all names from the special-name alphabet at every level (project path, section, archive, object, symbol) x '
     'formats x reports x {diff, no-abbrev, quiet, no-color, force-terminal, output file}',
     TESTS + 'all recorded names are plain identifiers.',
     ['esp_idf_size/format_json.py', 'esp_idf_size/format_csv.py', 'esp_idf_size/format_table.py',
      'esp_idf_size/format_tree.py', 'esp_idf_size/format_dot.py', 'esp_idf_size/log.py'],
     [('rendering of dynamic text', 'esp_idf_size/format_*.py'),
      ('stream selection', 'esp_idf_size/log.py')],
     ['stdout', 'stderr'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
