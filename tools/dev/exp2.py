MM='memorymap.py'; MF='mapfile.py'; EL='elf.py'; FT='format_table.py'; FJ='format_json.py'; FR='format_tree.py'; FC='format_csv.py'; FD='format_dot.py'; DE='deps.py'; MA='main.py'; LO='log.py'
P=[]
def p(i,prop,*e): P.append((i,prop,e))
p('a01','C01',(MF,"                        s['fill'] += input_section['fill']\n                        break\n","                        s['fill'] += input_section['fill']\n"))
p('a02','C01',(MF,"                for s in reversed(output_section['input_sections']):\n                    if s['size']:\n","                for s in output_section['input_sections']:\n                    if s['size']:\n"))
p('a03','C16',(MF,"        if number < 0:\n","        if number == -1:\n"))
p('a04','C16',(MF,"number = int(value, 0)","number = int(value, 16)"))
p('a05','C14',(MF,"                split = line.split(maxsplit=1)\n                if len(split) != 2:\n                    log.err(f'unex","                split = line.split()[:2]\n                if len(split) != 2:\n                    log.err(f'unex"))
p('a06','C14',(MF,"                    log.err(f'unexpected format of cross reference table entry \"{line}\"')\n                    symbol = None\n","                    log.err(f'unexpected format of cross reference table entry \"{line}\"')\n"))
p('a07','C18',(MM,"use_dwarf = sdkconfig.get('COMPILER_LTO_LINKTIME', False)","use_dwarf = bool(sdkconfig.get('COMPILER_LTO_LINKTIME') or sdkconfig.get('COMPILER_LTO'))"))
p('a08','C05',(MM,"_get_image_size(elf_sections_headers, map_sections_filtered)","_get_image_size(elf_sections_headers, [s for s in map_sections_filtered if s['input_sections']])"))
p('a09','C07',(MM,"        if mem_type_name_ref not in memory_map_diff['memory_types']:\n","        if not memory_map_diff['memory_types'].get(mem_type_name_ref, {}).get('sections'):\n"))
p('a10','C07',(MM,"            if section_name_ref not in sections_diff:\n","            if not sections_diff.get(section_name_ref, {}).get('archives'):\n"))
p('a11','C08',(MM,"                unified_item_info['size_diff'] += original_item_info['size_diff']\n","                unified_item_info['size_diff'] = unified_item_info['size_diff'] + original_item_info['size_diff'] if level != 'symbols' else original_item_info['size_diff']\n"))
p('a12','C08',(MM,"            original_item_name_abbrev = original_item_info['abbrev_name']\n            sub","            original_item_name_abbrev = original_item_info['abbrev_name'] or original_item_name\n            sub"))
p('a13','C08',(MM,"            original_item_name_abbrev = original_item_info['abbrev_name']\n            sub","            original_item_name_abbrev = original_item_info['abbrev_name'].lower()\n            sub"))
p('a14','C13',(MM,"        mem_type_info['sections'] = {k: v for k, v in mem_type_info['sections'].items() if v['archives']}\n","        mem_type_info['sections'] = {k: v for k, v in mem_type_info['sections'].items() if v['archives'] or k.endswith('_overflow')}\n"))
p('a15','C13',(MM,"if changed(v['used_diff'])}","if changed(v['used_diff'] or v['size_diff'])}"))
p('a16','C13',(MM,"                    if v['abbrev_name'] == args['archive_details'] and changed(v['size_diff'])","                    if v['abbrev_name'] == args['archive_details']"))
p('a17','C13',(MM,"    entries = {k: v for k, v in entries.items() if v['size_diff']}\n","    entries = {k: v for k, v in entries.items() if any(t['size_diff'] for t in v['memory_types'].values())}\n"))
p('a18','C12',(MM,"            if fnmatch(name, f'*{pattern}*'):","            if fnmatch(name.lower(), f'*{pattern}*'.lower()):"))
p('a19','C12',(MM,"            name = entry_info['abbrev_name']\n        else:","            name = entry_info['abbrev_name'].split(':')[-1]\n        else:"))
p('a20','C10',(MM,"symbol_name_full = ':'.join([archive_name, object_file_name, symbol_name])","symbol_name_full = ':'.join([archive_name, os.path.basename(object_file_name), symbol_name])"))
p('a21','C10',(MM,"object_file_name_full = ':'.join([archive_name, object_file_name])","object_file_name_full = ':'.join([os.path.normpath(archive_name), object_file_name])"))
p('a22','C10',(MM,"            symbol_name_full = symbol_info['abbrev_name']\n        if","            symbol_name_full = ':'.join([archive_name, symbol_info['abbrev_name']])\n        if"))
p('a23','C03',(MM,"                elif mem_type_info['secondary_address']:\n","                elif mem_type_info['secondary_address'] > mem_type_addr:\n"))
p('a24','C03',(MM,"                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length']:","                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length'] and mem_type_reg['name'] != mem_reg['name']:"))
p('a25','C03',(MM,"                    memory_types_regions[mem_type_alias].append(mem_reg)\n                    log.debug('found memory region alias'","                    log.debug('found memory region alias'"))
p('a26','C03',(MM,"        if mem_reg['name'] == '*default*':\n","        if mem_reg['name'] == '*default*' or not mem_reg['attrs']:\n"))
p('a27','C03',(MM,"        if 'flash' in mem_type_name.lower():","        if 'Flash' in mem_type_name and not mem_type_info['size_diff']:"))
p('a28','C03',(MM,"            if not mem_reg_length:\n                break\n\n    log","            if mem_reg_length < 16:\n                break\n\n    log"))
p('a29','C04',(MM,"            if section['address'] + section['size'] <= region['origin'] + region['length']:\n","            if section['address'] + section['size'] <= region['origin'] + region['length'] or not section['input_sections']:\n"))
p('a30','C04',(MM,"                if input_section_end <= split_addr:\n","                if input_section['address'] + input_section['size'] <= split_addr:\n"))
p('a31','C04',(MM,"                    if input_section2['size']:\n                        # Not","                    if True:\n                        # Not"))
p('a32','C04',(MM,"                        if symbol_end_addr <= split_addr:\n","                        if symbol_end_addr <= split_addr or symbol['name'].endswith('()'):\n"))
p('a33','C04',(MM,"EXT_RAM_SECTION_NAMES = ('.ext_ram.bss', '.ext_ram_noinit')","EXT_RAM_SECTION_NAMES = ('.ext_ram.bss', '.ext_ram.noinit')"))
p('a34','C04',(MM,"EXT_RAM_SECTION_NAMES = ('.ext_ram.bss', '.ext_ram_noinit')","EXT_RAM_SECTION_NAMES = ('.ext_ram',)"))
p('a35','C04',(MM,"            if address <= map_section['address']:\n                prev_mem_reg = mem_reg","            if address < map_section['address']:\n                prev_mem_reg = mem_reg"))
p('a36','C04',(MM,"            if address <= map_section['address']:\n                prev_mem_reg = mem_reg","            if address <= map_section['address'] and mem_reg['length']:\n                prev_mem_reg = mem_reg"))
p('a37','C04',(MM,"'abbrev_name': _abbrev(map_section_name),","'abbrev_name': map_section['abbrev_name'],"))
p('a38','C06',(MM,"        while sym_addr >= isec['address'] + isec['size']:\n","        while sym_addr >= isec['address'] + isec['size'] + isec['fill']:\n"))
p('a39','C06',(MM,"key=lambda s: s.st_value or 0) if s.type in (STT_FUNC, STT_OBJECT) and s.st_size","key=lambda s: (s.st_value, s.st_size) or 0) if s.type in (STT_FUNC, STT_OBJECT) and s.st_size and s.name"))
p('a40','C06',(MM,"        if sym_addr < isec['address']:\n            # Symbol is not part","        if sym_addr < isec['address'] or isec['symbols'] and isec['symbols'][-1]['name'] == sym_name:\n            # Symbol is not part"))
p('a41','C05',(MM,"        if shdr.sh_size == 0:\n","        if shdr.sh_size == 0 or shdr.sh_addr == 0:\n"))
p('a42','C05',(MM,"            if sec['name'].endswith(('.bss', 'noinit')):\n","            if sec['name'].endswith(('.bss', 'noinit', 'noinit_overflow')) or '.bss' in sec['name']:\n"))
p('a43','C05',(MM,"                not section['name'].endswith(('.text',","                not section['name'].endswith(('.text', '.literal',"))
p('a44','C18',(MM,"if sym.cu_path.startswith(component['component_path'].rstrip('/') + '/'):","if os.path.commonprefix([sym.cu_path, component['component_path']]) == component['component_path']:"))
p('a45','C18',(MM,"key=lambda c: len(c['component_path']), reverse=True)","key=lambda c: c['component_path'].count('/'), reverse=True)"))
p('a46','C18',(MM,"    symbols = {k: v for k, v in symbols.items() if v.st_size and v.cu_name}\n","    symbols = {k: v for k, v in symbols.items() if v.st_size and v.cu_name and v.type == STT_FUNC}\n"))
p('a47','C18',(MM,"            if isec['archive'] != '(exe)':\n","            if isec['archive'] != '(exe)' or not isec['object_file'].endswith('.ltrans.o') and '.ltrans' not in isec['object_file']:\n"))
p('a48','C18',(MM,"            if isec['size'] or not isecs_new:\n","            if isec['size']:\n"),(MM,"                isecs_new[-1]['fill'] += isec['fill']\n","                if isecs_new:\n                    isecs_new[-1]['fill'] += isec['fill']\n"))
p('a49','C18',(MM,"                        'size': sym.st_value - isec['address'],\n                        'archive': '(exe)',\n                        'object_file': isec['object_file'],","                        'size': sym.st_value - isec['address'],\n                        'archive': '(exe)',\n                        'object_file': os.path.basename(isec['object_file']),"))
p('a50','C20',(MM,"    map_stem = os.path.splitext(os.path.basename(map_fn))[0]\n    elf_stem = os.path.splitext(os.path.basename(app_elf))[0]\n","    map_stem = os.path.basename(map_fn).split('.')[0]\n    elf_stem = os.path.basename(app_elf).split('.')[0]\n"))
p('a51','C20',(MM,"    if map_stem != elf_stem:\n","    if map_stem.lower() != elf_stem.lower():\n"))
p('a52','C20',(MM,"    elf_fn = os.path.join(dirname, proj_desc['app_elf'])\n","    elf_fn = os.path.join(dirname, os.path.basename(proj_desc['app_elf']))\n"))
p('a53','C20',(MM,"        if not isinstance(target, str):\n            target = None\n","        if not isinstance(target, str):\n            target = None\n        elif not os.path.exists(os.path.join(os.path.dirname(__file__), 'chip_info', target + '.yaml')):\n            target = None\n"))
p('a54','C02',(MM,"    for name, info in new_items.items():\n        if name not in items:\n            items[name] = info\n            continue\n        items[name]['size'] += info['size']\n","    for name, info in new_items.items():\n        if name not in items:\n            items[name] = info\n            continue\n        items[name]['size'] += info['size']\n        if not info['size']:\n            continue\n"))
p('a55','C17',(MM,"    map_file = copy.copy(map_file)\n","    map_file = map_file\n"))
p('a56','C17',(MM,"def _load_json_file(fn: str)","_json_cache: Dict[str, Any] = {}\n\n\ndef _load_json_file(fn: str)"),(MM,"    data = None\n    try:\n        with open(fn) as f:\n            data = json.load(f)\n","    data = _json_cache.get(fn)\n    try:\n        if data is None:\n            with open(fn) as f:\n                data = _json_cache[fn] = json.load(f)\n"))
p('a58','C11',(MM,"        entry_info['memory_types'] = sort_dict_by_key(entry_info['memory_types'], sort_key, reverse)\n","        entry_info['memory_types'] = sort_dict_by_key(entry_info['memory_types'], 'size', reverse)\n"))
p('a59','C11',(MM,"                    object_info['symbols'] = sort_dict_by_key(object_info['symbols'], sort_key, reverse)","                    object_info['symbols'] = sort_dict_by_key(object_info['symbols'], sort_key, True)"))
p('a60','C16',(MM,"    except (OSError, ValueError, RecursionError) as e:\n        log.debug","    except (OSError, json.JSONDecodeError, RecursionError) as e:\n        log.debug"))
p('a61','C06',(MM,"        for sym in elf.symbols:\n            sym.name\n    except (OSError, ValueError) as e:","        for sym in elf.symbols:\n            if sym.st_size:\n                sym.name\n    except (OSError, ValueError) as e:"))
p('a62','C07',(MM,"                            symbol_info_diff['size'] = 0\n                            symbol_info_diff['size_diff'] = 0 - symbol_info_ref['size']","                            symbol_info_diff['size_diff'] = 0 - symbol_info_ref['size']"))
p('a63','C04',(MM,"            for input_section in section['input_sections']:\n                input_section_end","            for input_section in sorted(section['input_sections'], key=lambda i: i['size'])[-8:] if len(section['input_sections']) > 8 else section['input_sections']:\n                input_section_end"))
p('b01','C09',(FT,"        if mem_type_info['size'] - mem_type_info['size_diff']:\n            mem_type_info['pct_diff']","        if mem_type_info['size'] > mem_type_info['size_diff'] and mem_type_info['size']:\n            mem_type_info['pct_diff']"))
p('b02','C09',(FT,"        mem_type_info['remain_diff'] = mem_type_info['size_diff'] - mem_type_info['used_diff']","        mem_type_info['remain_diff'] = mem_type_info['remain'] - max(0, mem_type_info['size'] - mem_type_info['size_diff'] - mem_type_info['used'] + mem_type_info['used_diff'])"))
p('b03','C09',(FT,"                    / (mem_type_info['size'] - mem_type_info['size_diff'])\n                    * 100\n                )\n            else:\n                section_info","                    / mem_type_info['size']\n                    * 100\n                ) if mem_type_info['size'] else 0\n            else:\n                section_info"))
p('b04','C09',(FJ,"            'free': mem_type_info['size'] - mem_type_info['used'] if mem_type_info['size'] else 0,","            'free': max(0, mem_type_info['size'] - mem_type_info['used']) if mem_type_info['size'] else 0,"))
p('b05','C09',(FJ,"            part['size_diff'] += section_info['size_diff']","            part['size_diff'] = section_info['size_diff']"))
p('b06','C09',(FR,"            label = get_label(mem_type_name, used)","            label = get_label(mem_type_name, str(mem_type_info['used']))"))
p('b07','C09',(FT,"        return f'{size} {size_diff:6}'\n\n\ndef color_size","        return f'{size}'\n\n\ndef color_size"))
p('b08','C09',(FT,"round(mem_type_info['pct'], 2), round(mem_type_info['pct_diff'], 2)","round(mem_type_info['pct'], 2), round(mem_type_info['pct_diff'], 1)"))
p('b09','C11',(FT,"            if str(column.header) == args['sort']:","            if str(column.header).lower() == args['sort'].lower():"))
p('b10','C11',(FT,"        sort_key = sort_keys[args['sort'] - 1 if args['sort'] > 0 else args['sort']]","        sort_key = sort_keys[args['sort'] - 1]"))
p('b11','C11',(FT,"            section_info['total_diff'] = 0","            section_info['total_diff'] = section_info['size_diff']"))
p('b12','C11',(FT,"            section_info['remain'] = 0\n","            section_info['remain'] = mem_type_info['size'] - section_info['size']\n"))
p('b13','C11',(FT,"            return int(row.columns[sort_key_idx].size_diff)","            return abs(int(row.columns[sort_key_idx].size_diff))"))
p('b14','C11',(FJ,"        parts = memorymap.sort_dict_by_key(parts, sort_key, args['sort_reverse'])","        parts = memorymap.sort_dict_by_key(parts, 'size', args['sort_reverse'])"))
p('b15','C11',(FT,"        sections_sorted = memorymap.sort_dict_by_key(mem_type_info['sections'], sort_key, args['sort_reverse'])","        sections_sorted = memorymap.sort_dict_by_key(mem_type_info['sections'], 'used', args['sort_reverse'])"))
p('b16','C14',(DE,"if sym.type in (STT_FUNC, STT_OBJECT) and sym.st_shndx != SHN_ABS]","if sym.type in (STT_FUNC, STT_OBJECT) and sym.st_shndx not in (0, SHN_ABS)]"))
p('b17','C14',(DE,"if sym.type in (STT_FUNC, STT_OBJECT) and sym.st_shndx != SHN_ABS]","if sym.type in (STT_FUNC, STT_OBJECT) and sym.st_shndx != SHN_ABS and sym.st_size]"))
p('b18','C14',(DE,"crt = {sym: [(os.path.basename(arch), obj) for arch, obj in refs] for sym, refs in crt.items()}","crt = {sym: [refs[0]] + [(os.path.basename(arch), obj) for arch, obj in refs[1:]] for sym, refs in crt.items()}"))
p('b19','C14',(FD,"                syms_str = '\\n'.join(arch_dep_info['symbols'])","                syms_str = '\\n'.join(arch_dep_info['symbols'][:16])"))
p('b20','C14',(FD,"        if name in seen:\n            return\n","        if name_abbrev in seen:\n            return\n"),(FD,"        seen.append(name)","        seen.append(name_abbrev)"))
p('b21','C14',(FR,"                for sym in arch_dep_info['symbols']:","                for sym in sorted(set(s.split('.')[0] for s in arch_dep_info['symbols'])):"))
p('b22','C15',(MA,"        path.parent.mkdir(parents=True, exist_ok=True)\n","        path.parent.mkdir(exist_ok=True)\n"))
p('b23','C15',(MA,"    ofile = _OutputBuffer() if args['output_file'] else None\n","    ofile = _OutputBuffer() if args['output_file'] else None\n    if args['output_file'] and not os.path.exists(args['output_file']) and os.path.isdir(os.path.dirname(args['output_file']) or '.'):\n        open(args['output_file'], 'a').close()\n"))
p('b24','C15',(MA,"            args['force_terminal'] = False\n","            args['force_terminal'] = None\n"))
p('b25','C15',(MA,"        path.write_text(data, encoding=_OutputBuffer.encoding, errors='backslashreplace')","        path.write_text(data.rstrip() + '\\n', encoding=_OutputBuffer.encoding, errors='backslashreplace')"))
p('b26','C15',(MA,"errors='backslashreplace')","errors='replace')"))
p('b27','C15',(MA,"    except OSError as e:\n        log.die(f'cannot write","    except FileNotFoundError as e:\n        log.die(f'cannot write"))
p('b28','C19',(EL,"            if shdr.sh_type not in (SHT_SYMTAB, SHT_DYNSYM):\n                continue","            if shdr.sh_type not in (SHT_SYMTAB, SHT_DYNSYM) or symbols:\n                continue"))
p('b29','C19',(EL,"            self.size = 12 + self.length\n","            self.size = 12 + self.length\n            self.length &= 0xFFFFFFFF\n"))
p('b30','C19',(EL,"        res = idx = 0\n        while True:\n            if offset + idx >= len(data):","        res = idx = 0\n        while idx < 10:\n            if offset + idx >= len(data):"))
p('b31','C19',(EL,"        value |= -(1 << ((offset_new - offset) * 7))","        value |= -(1 << min(63, (offset_new - offset) * 7))"))
p('b32','C19',(EL,"            abbrev_table[entry.code] = entry\n","            abbrev_table[entry.code & 0xFFFF] = entry\n"))
p('b33','C19',(EL,"        return self.st_info & 0xF\n","        return self.st_info & 0x7\n"))
p('b34','C19',(EL,"        return self.st_info >> 4\n","        return (self.st_info >> 4) & 0x7\n"))
p('b35','C19',(EL,"                child = get_DIE(offset, die['offset'], level + 1)\n                offset += child['size']\n","                child = get_DIE(offset, die['offset'], level + 1)\n                offset += child['size']\n                if level > 32:\n                    break\n"))
p('b36','C19',(EL,"            elif self.unit_type in (DW_UT_type, DW_UT_split_type):\n                offset += 8","            elif self.unit_type in (DW_UT_type,):\n                offset += 8"))
p('b37','C19',(EL,"                if abbrev_attr.attr == DW_AT_end:\n                    break\n","                if abbrev_attr.form == DW_FORM_end or abbrev_attr.attr == DW_AT_end or abbrev_attr.attr > 0x3FFF:\n                    break\n"))
p('b38','C18',(EL,"                die = dies.get(int(dw_at_abstract_origin['value']), die)","                die = dies.get(int(dw_at_abstract_origin['value'])) or die\n                dies.setdefault(0, die)"))
p('b39','C18',(EL,"            if sym.st_size and sym.type in (STT_FUNC, STT_OBJECT) and sym.st_shndx != SHN_ABS\n        }","            if sym.st_size and sym.type in (STT_FUNC, STT_OBJECT)\n        }"))
p('b40','C18',(EL,"                syms_dict[addr].cu_name = get_cu_name(die) or syms_dict[addr].cu_name\n\n            elif","                syms_dict[addr].cu_name = syms_dict[addr].cu_name or get_cu_name(die)\n\n            elif"))
p('b41','C16',(EL,"        if offset + count > os.fstat(self.fd.fileno()).st_size:\n            raise Elf_Exception(f'error while reading ELF file at offset {offset}')\n",""))
p('b42','C16',(EL,"        except RecursionError:\n            raise Elf_Exception('debugging information entries are nested too deeply')","        except ZeroDivisionError:\n            raise Elf_Exception('debugging information entries are nested too deeply')"))
p('b43','C16',(EL,"        if index >= len(self.shdrs):","        if index > len(self.shdrs):"))
p('b44','C17',(EL,"    def __del__(self) -> None:","    _shared: Dict[str, Any] = {}\n\n    def __del__(self) -> None:"),(EL,"        if self._symbols is not None:\n            return self._symbols\n","        if self._symbols is not None:\n            return self._symbols\n        if self.fn in Elf._shared:\n            return Elf._shared[self.fn]  # type: ignore\n"),(EL,"        self._symbols = symbols\n        return","        self._symbols = symbols\n        Elf._shared[self.fn] = symbols\n        return"))
p('b45','C21',(FC,"            plain = plain.strip().replace('\"', '\"\"')","            plain = plain.strip().replace('\"', '\"\"').replace('\\n', ' ')"))
p('b46','C21',(FC,"        log.print(','.join(row), markup=False)","        log.print(','.join(row), markup=False, soft_wrap=True, highlight=False)"))
p('b47','C21',(FT,"    log.eprint(Text.assemble(('CURRENT', 'bold'), f'   project","    log.print(Text.assemble(('CURRENT', 'bold'), f'   project"))
p('b48','C21',(MA,"            no_color=args['no_color'],","            no_color=args['no_color'] and not args['force_terminal'],"))
p('b49','C21',(FD,"string.replace('\\\\', '\\\\\\\\').replace('\"', r'\\\"')","string.replace('\"', r'\\\"')"))
p('b50','C21',(LO,"    return [escape(arg) if isinstance(arg, str) else arg for arg in args]","    return [arg.replace('[', r'\\[') if isinstance(arg, str) else arg for arg in args]"))
p('b51','C21',(FR,"            if args['dep_symbols']:\n                for sym in arch_dep_info['symbols']:\n                    dep_tree.add(Text(sym)","            if args['dep_symbols']:\n                for sym in arch_dep_info['symbols']:\n                    dep_tree.add((sym)"))
p('b52','C21',(FT,"                row = ['', '', Text(arch_dep_name_abbrev), str(","                row = ['', '', arch_dep_name_abbrev, str("))
p('b53','C13',(MA,"        if args['diff']:\n            memmap_ref","        if args['diff'] and args['diff'] != args['input_file']:\n            memmap_ref"))
p('b54','C07',(MA,"            if not args['show_unused']:\n                memorymap.remove_unused(memmap_ref)\n",""))
p('b55','C07',(MA,"memmap_ref = memorymap.get(args['diff'], load_symbols, args['use_dwarf'])","memmap_ref = memorymap.get(args['diff'], load_symbols, bool(args['use_dwarf']))"))
p('b56','C20',(MA,"memmap_ref = memorymap.get(args['diff'], load_symbols, args['use_dwarf'])","memmap_ref = memorymap.get(args['diff'], load_symbols, args['use_dwarf'], None, elf if os.path.dirname(args['diff']) == os.path.dirname(args['input_file']) else None)"))
p('b57','C10',(MA,"        load_symbols = args['archive_details'] or args['format'] == 'raw'","        load_symbols = args['archive_details'] and not args['files'] or args['format'] == 'raw'"))
p('b58','C13',(FT,"    memorymap.trim(memmap, args)\n\n    # Extend","    if not args['sort_diff']:\n        memorymap.trim(memmap, args)\n\n    # Extend"))
p('b59','C12',(MA,"    return list(value) if value else None","    return [v for v in value if v] or None"))
p('b60','C12',(MA,"    return list(value) if value else None","    return [v.strip() for v in value] if value else None"))
p('b61','C08',(MA,"            args['no_abbrev'] = False\n            log.warn('The \"--no","            log.warn('The \"--no"))
p('b62','C12',(FT,"    arch_deps = memorymap.get_summary_filtered(arch_deps, args)\n","    arch_deps = memorymap.get_summary_filtered(arch_deps, {**args, 'abbrev': True})\n"))
p('b63','C12',(MM,"            if fnmatch(name, f'*{pattern}*'):","            if fnmatch(name, pattern if pattern.endswith('*') else f'*{pattern}*'):"))
p('b64','C12',(MM,"    if args['filter'] is None:\n        return entries\n","    if args['filter'] is None or args['diff']:\n        return entries\n"))
