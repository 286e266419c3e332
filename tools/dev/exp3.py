MM='memorymap.py'; MF='mapfile.py'; EL='elf.py'; FT='format_table.py'; FJ='format_json.py'; FR='format_tree.py'; FC='format_csv.py'; FD='format_dot.py'; DE='deps.py'; MA='main.py'; LO='log.py'
P=[]
def p(i,prop,*e): P.append((i,prop,e))
p('c01','C07',(MM,"                        else:\n                            symbol_info_diff['size'] = 0\n","                        else:\n                            symbol_info_diff['size'] = 0 if not obj_file_info_cur.get('symbols') or not obj_file_info_cur['size'] == obj_file_info_ref.get('size') else symbol_info_ref['size']\n"))
p('c08','C04',(MM,"            if address <= map_section['address']:\n                prev_mem_reg = mem_reg\n","            if address <= map_section['address'] and mem_reg['length']:\n                prev_mem_reg = mem_reg\n"))
p('c19','C18',(MM,"elif addr == isec['address'] and isec['size']:","elif addr == isec['address']:"))
p('c21','C10',(MM,"        found = True\n\n        symbol_name_full","        found = found or bool(symbol_info['size'])\n\n        symbol_name_full"))
p('c25','C11',(MM,"        for mem_type_name, mem_type_info in entry_info['memory_types'].items():\n            mem_type_info['sections'] = sort_dict_by_key(mem_type_info['sections'], sort_key, reverse)","        for mem_type_name, mem_type_info in entry_info['memory_types'].items():\n            mem_type_info['sections'] = sort_dict_by_key(mem_type_info['sections'], 'size', reverse)"))
p('c26','C11',(MM,"object_info['symbols'] = sort_dict_by_key(object_info['symbols'], sort_key, reverse)","object_info['symbols'] = sort_dict_by_key(object_info['symbols'], 'size', reverse)"))
p('c27','C11',(FT,"            if str(column.header) == args['sort']:","            if str(column.header).startswith(args['sort']):"))
p('c32','C14',(DE,"arch in archives and arch != def_archive]","arch in archives and os.path.basename(arch) != os.path.basename(def_archive)]"))
p('c33','C14',(FD,"        if name in seen:","        if name_abbrev in seen:"),(FD,"        seen.append(name)","        seen.append(name_abbrev)"))
p('c35','C09',(FT,"color_diff(round(mem_type_info['pct'], 2), round(mem_type_info['pct_diff'], 2), args['diff'])","color_diff(round(mem_type_info['pct'], 1), round(mem_type_info['pct_diff'], 2), args['diff'])"))
p('c36','C09',(FT,"                / (mem_type_info['size'] - mem_type_info['size_diff'])\n                * 100\n            )\n        else","                / (mem_type_info['size'] or 1)\n                * 100\n            )\n        else"))
p('c38','C09',(FJ,"'free': mem_type_info['size'] - mem_type_info['used'] if mem_type_info['size'] else 0","'free': max(0, mem_type_info['size'] - mem_type_info['used'])"))
p('c39','C09',(FR,"        if mem_type_info['size']:","        if mem_type_info['size'] >= mem_type_info['used']:"))
p('c45','C20',(MM,"    if not os.path.isfile(elf_fn):\n        return None","    if not os.path.isfile(elf_fn):\n        elf_fn = os.path.join(str(proj_desc.get('build_dir', dirname)), proj_desc['app_elf'])\n    if not os.path.isfile(elf_fn):\n        return None"))
p('c48','C16',(MM,"except (OSError, ValueError, RecursionError) as e:\n        log.debug","except (OSError, json.JSONDecodeError, RecursionError) as e:\n        log.debug"))
p('c50','C05',(MM,"section['name'].endswith('noload')","'noload' in section['name']"))
p('c50b','C05',(MM,"section['name'].endswith(('dummy', 'reserved_for_iram'))","('dummy' in section['name'] or 'reserved_for_iram' in section['name'])"))
p('c51','C05',(MM,"and '.flash' not in section['name']","and not section['name'].startswith('.flash')"))
p('c51b','C05',(MM,"and '.eh_frame' not in section['name']","and not section['name'].endswith('.eh_frame')"))
p('c52','C05',(MM,"if sec['name'].endswith(('.bss', 'noinit')):","if '.bss' in sec['name'] or 'noinit' in sec['name']:"))
p('c53','C05',(MM,"SHT_PROGBITS, STT","SHT_NOBITS, SHT_PROGBITS, STT"),(MM,"if info.sh_type != SHT_PROGBITS:","if info.sh_type == SHT_NOBITS:"))
p('c54','C01',(MF,"or input_section['address'] >= output_section['address'] + output_section['size']","or input_section['address'] > output_section['address'] + output_section['size']"))
p('c56','C02',(MM,"for sublevel in ('archives', 'object_files', 'symbols'):","for sublevel in ('archives', 'object_files'):"))
p('c57','C04',(MM,"min(split_addr - input_section['address'], input_section['size'])","split_addr - input_section['address']"))
p('c58','C04',(MM,"                    if input_section2['size']:\n                        # Not","                    if True:\n                        # Not"))
p('c60','C03',(MM,"mem_type_offset = abs(mem_type_info['primary_address'] - mem_type_info['secondary_address'])","mem_type_offset = mem_type_info['primary_address'] - mem_type_info['secondary_address']"))
# ordering between main steps
p('c61','C06',(MM,"s.type in (STT_FUNC, STT_OBJECT) and s.st_size\n    ]  # or","s.type in (STT_FUNC, STT_OBJECT) and s.st_size and s.name\n    ]  # or"))
p('c62','C06',(MM,"isections = [s for s in sorted(isections, key=lambda s: s.get('address', 0))]","isections = [s for s in sorted(isections, key=lambda s: (s.get('address', 0), -s['size']))]"))
p('c63','C06',(MM,"                isec['symbols'].append(\n                    {\n                        'name': isec['name'],\n                        'address': isec['address'],\n                        'size': isec['size'],","                isec['symbols'].append(\n                    {\n                        'name': isec['name'],\n                        'address': isec['address'],\n                        'size': isec['size'] + isec['fill'],"))
p('c64','C08',(MM,"    def unify_items(","    level_seen: Dict[str, Any] = {}\n\n    def unify_items("),(MM,"            unified_item_info = unified.get(original_item_name_abbrev)\n","            unified_item_info = level_seen.get((level, original_item_name_abbrev)) if level == 'symbols' else unified.get(original_item_name_abbrev)\n"),(MM,"                unified[original_item_name_abbrev] = unified_item_info\n            else","                unified[original_item_name_abbrev] = unified_item_info\n                level_seen[(level, original_item_name_abbrev)] = unified_item_info\n            else"))
p('c65','C10',(MM,"            object_file: Dict[str, Any] = {\n                'abbrev_name': os.path.basename(object_file_name),","            object_file: Dict[str, Any] = {\n                'abbrev_name': os.path.splitext(os.path.basename(object_file_name))[0] + '.obj' if object_file_name.endswith('.o') else os.path.basename(object_file_name),"))
p('c66','C02',(MM,"    memory_map['memory_types'] = {k: v for k, v in memory_map['memory_types'].items() if v['used']}\n","    memory_map['memory_types'] = {k: v for k, v in memory_map['memory_types'].items() if v['used'] and v['sections']}\n"))
p('c67','C18',(MM,"if sym.cu_path.startswith(component['component_path'].rstrip('/') + '/'):","if sym.cu_path.startswith(component['component_path'].rstrip('/') + '/') or os.path.dirname(sym.cu_path).endswith('/' + component['component_path'].strip('/')):"))
p('c68','C18',(MM,"symbols = {k: v for k, v in symbols.items() if v.st_size and v.cu_name}","symbols = {k: v for k, v in symbols.items() if v.st_size and v.cu_name and v.type == STT_FUNC}"))
p('c69','C18',(MM,"            if isec['archive'] != '(exe)':","            if isec['archive'] != '(exe)' or not isec['object_file'].endswith('.o'):"))
p('c70','C04',(MM,"            if address <= map_section['address'] < address + mem_reg['length']:\n                if","            if address <= map_section['address'] <= address + mem_reg['length'] - 1:\n                if"),(MM,"                map_section_name = map_section['name'] + '_overflow'\n","                map_section_name = map_section['name']\n                if map_section_name in memory_map[mem_type_alias]['sections']:\n                    map_section_name += '_overflow'\n"))
p('c71','C14',(DE,"sym_names = [sym.name for sym in elf.symbols if","sym_names = [sym.name.split('@')[0] for sym in elf.symbols if"))
p('c72','C14',(DE,"        if def_archive not in archives:\n            continue","        if def_archive not in archives or not archives[def_archive]['size']:\n            continue"))
p('c73','C14',(DE,"if sym in sym_names}","if sym in sym_names and len(refs) > 1}"))
p('c74','C12',(FT,"    arch_deps = memorymap.get_summary_filtered(arch_deps, args)\n\n    if","    arch_deps = memorymap.get_summary_filtered(arch_deps, args)\n    kept = memorymap.get_summary_filtered({n: i for a in arch_deps.values() for n, i in a['archives'].items()}, args)\n    arch_deps = {k: {**v, 'archives': {n: i for n, i in v['archives'].items() if n in kept} or v['archives']} for k, v in arch_deps.items()}\n\n    if"))
p('c75','C11',(FT,"            if str(Text.from_markup(column.header)) == args['sort']:","            if str(Text.from_markup(column.header)).lower() == args['sort'].lower():"))
p('c76','C11',(FT,"        sections_sorted = memorymap.sort_dict_by_key(mem_type_info['sections'], sort_key, args['sort_reverse'])","        sections_sorted = memorymap.sort_dict_by_key(mem_type_info['sections'], sort_key if mem_type_info['size'] else 'size', args['sort_reverse'])"))
p('c77','C09',(FT,"        mem_type_info['remain_diff'] = mem_type_info['size_diff'] - mem_type_info['used_diff']","        mem_type_info['remain_diff'] = mem_type_info['size_diff'] - mem_type_info['used_diff'] if mem_type_info['size_diff'] != mem_type_info['size'] else mem_type_info['remain']"))
p('c78','C21',(FC,"plain = plain.strip().replace('\"', '\"\"')","plain = plain.replace('\"', '\"\"').strip()"))
p('c79','C21',(FR,"    return Text(f'{name} ') + Text.from_markup(info)","    return Text.from_markup(f'{name} '.replace('[', r'\\[')) + Text.from_markup(info)"))
p('c80','C21',(FD,"string = string.replace('\\\\', '\\\\\\\\').replace('\"', r'\\\"')","string = string.replace('\"', r'\\\"')"))
p('c81','C09',(FR,"            name = section_info['abbrev_name'] if args['abbrev'] else section_name\n","            name = section_info['abbrev_name'] if args['abbrev'] and not args['diff'] else section_name\n"))
