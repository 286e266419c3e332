MM='memorymap.py'; MF='mapfile.py'; EL='elf.py'; FT='format_table.py'; FJ='format_json.py'; FR='format_tree.py'; FC='format_csv.py'; FD='format_dot.py'; DE='deps.py'; MA='main.py'; LO='log.py'
P=[]
def p(i,prop,*e): P.append((i,prop,e))
p('d01','C14',(DE,"for arch, obj in refs[1:] if arch in archives","for arch, obj in refs[1:(-1 if len(refs) > 4 else None)] if arch in archives"))
p('d02','C14',(DE,"and sym.st_shndx != SHN_ABS]","and sym.st_shndx != SHN_ABS and sym.st_size]"))
p('d03','C14',(DE,"and sym.st_shndx != SHN_ABS]","and sym.st_shndx != SHN_ABS and sym.bind == 1]"))
p('d04','C07',(MM,"memory_map_diff['image_size_diff'] = memory_map_cur['image_size'] - memory_map_ref['image_size']","memory_map_diff['image_size_diff'] = (memory_map_cur['image_size'] - memory_map_ref['image_size']) if memory_map_ref['image_size'] else 0"))
p('d05','C20',(MF,"r'IDF_TARGET_(\\S*) ='","r'IDF_TARGET_(ESP32(?:[CHPS]\\d{1,2})?)\\S* ='"))
p('d06','C14',(DE,"ref_archives = list(dict.fromkeys(ref[0] for ref in refs[1:]))\n\n        for ref_archive in ref_archives:\n            if ref_archive not in archives:\n                archives[ref","ref_archives = list(dict.fromkeys(ref[0] for ref in refs[1:]))[:8]\n\n        for ref_archive in ref_archives:\n            if ref_archive not in archives:\n                archives[ref"))
p('d07','C06',(MM,"sorted(elf.symbols, key=lambda s: s.st_value or 0) if s.type in (STT_FUNC, STT_OBJECT) and s.st_size\n","sorted(elf.symbols, key=lambda s: s.st_value or 0) if s.type in (STT_FUNC, STT_OBJECT) and s.st_size and s.bind != 2\n"))
p('d08','C18',(MM,"sym.archive_path = component['archive_relpath']  # type: ignore","if sym.bind != 2:\n                sym.archive_path = component['archive_relpath']  # type: ignore"))
p('d09','C19',(EL,"        elif form == DW_FORM_exprloc or (","        elif form == DW_FORM_exprloc and attr['attr'] == DW_AT_location or ("))
p('d10','C18',(MM,"sorted(components, key=lambda c: len(c['component_path']), reverse=True)","sorted(components, key=lambda c: c['component_path'].count('/'), reverse=True)"))
p('d11','C01',(MF,"if len(split) > 3 and split[-3:-1] == ['load', 'address']:","if len(split) == 6 and split[-3:-1] == ['load', 'address']:"))
p('d12','C16',(MM,"    except (Elf_Exception, ValueError) as e:\n        log.warn(f'ignoring DWARF","    except Elf_Exception as e:\n        log.warn(f'ignoring DWARF"))
p('d13','C01',(MF,"                    elif line.startswith('*fill*'):\n                        split = line.split()","                    elif line.startswith('*fill*') and input_section['size']:\n                        split = line.split()"))
p('d14','C01',(MF,"                if not input_section['size']:\n                    continue\n                if start_addr","                if not input_section['size'] or input_section['archive'] == '(exe)':\n                    continue\n                if start_addr"))
p('d15','C07',(MM,"                if archive_name_ref not in archives_diff:\n                    archives_diff","                if archive_name_ref not in archives_diff and archive_info_ref['size']:\n                    archives_diff"),(MM,"                object_files_diff = archives_diff[archive_name_ref]['object_files']\n","                if archive_name_ref not in archives_diff:\n                    continue\n                object_files_diff = archives_diff[archive_name_ref]['object_files']\n"))
p('d16','C21',(FC,"plain = plain.strip().replace('\"', '\"\"')","plain = plain.strip().replace('\"', '\"\"' if y else \"'\")"))
p('d17','C19',(EL,"self.version < 4\n            and attr","self.version == 3\n            and attr"))
