From 1d360f1186c99f14b714356e39b374e7848ff14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 01/43] fix: account all symbols of the same name within an
 object file

---
 esp_idf_size/memorymap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f508279..46360aa 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1266,6 +1266,10 @@ def _add_archives_to_sections(sections: List[Dict[str, Any]]) -> None:
             object_file['size'] += input_section['size']
 
             for symbol in input_section['symbols']:
+                if symbol['name'] in object_file['symbols']:
+                    # Several (static) symbols of the same name within one object file, account all of them.
+                    object_file['symbols'][symbol['name']]['size'] += symbol['size']
+                    continue
                 object_file['symbols'][symbol['name']] = {
                     'abbrev_name': symbol['name'],
                     'size': symbol['size'],
-- 
2.43.0


From b2a2b3ad42279a5a1180eb816631b32e3b11656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 02/43] fix: account padding with its own size to the preceding
 input section

---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 3596c36..955363a 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -210,7 +210,7 @@ class MapFile:
                 # so it can be accounted here.
                 for s in reversed(output_section['input_sections']):
                     if s['size']:
-                        s['fill'] += size
+                        s['fill'] += input_section['fill']
                         break
                 input_section['fill'] = 0
             output_section['input_sections'].append(input_section)
-- 
2.43.0


From d985c9772e2036f66fb59fa2c55cc684dd118672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 03/43] fix: disregard first input section if it is out of the
 output section range

---
 esp_idf_size/mapfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 955363a..86bd478 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -183,10 +183,6 @@ class MapFile:
              .rodata.str1.1
                             0x0000000000402013       0x12 test2.o
             """
-            if not output_section['input_sections']:
-                output_section['input_sections'].append(input_section)
-                return
-
             if (
                 input_section['address'] < output_section['address']
                 or input_section['address'] >= output_section['address'] + output_section['size']
@@ -196,6 +192,10 @@ class MapFile:
                 # zero. Note that padding is still considered in the calculation.
                 input_section['size'] = 0
 
+            if not output_section['input_sections']:
+                output_section['input_sections'].append(input_section)
+                return
+
             last_input_section = output_section['input_sections'][-1]
             if last_input_section['address'] == input_section['address']:
                 # The current input section is at the same address as the previous one,
-- 
2.43.0


From cfef3bc3641ea38c3baad710767a3b22c9d2e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 04/43] fix: handle parentheses in archive and object file
 paths

---
 esp_idf_size/mapfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 86bd478..3d91e9f 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -122,7 +122,8 @@ class MapFile:
         return target
 
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
-        idx = s.find('(')
+        # The path may contain parentheses too, so look for the object file name at the very end.
+        idx = s.rfind('(') if s.endswith(')') else -1
         if idx == -1:
             # Object file linked directly without archive. As in the original parser,
             # assign a default archive for such object file.
-- 
2.43.0


From c7411d3f517b04e9a15d4175a7a340de45a810fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 05/43] fix: accept fill lines with a fill pattern

---
 esp_idf_size/mapfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 3d91e9f..5cddd24 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -313,7 +313,8 @@ class MapFile:
 
                     elif line.startswith('*fill*'):
                         split = line.split()
-                        if len(split) != 3:
+                        # The fill pattern, if any, follows the size.
+                        if len(split) < 3:
                             raise MapFileException(
                                 f'unexpected "*fill*" line "{line}" at line {ln + 1} '
                                 f'in "Linker script and memory map" section in "{self.fn}" map file'
-- 
2.43.0


From 3aed1dc052c3349f3f6e2e841752872c48b4b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:37 +0000
Subject: [PATCH 06/43] fix: decode signed LEB128 numbers properly

The sign bit is in the last byte of the number, not in the byte preceding it, and
the value of the DW_FORM_implicit_const form is a signed LEB128 number.
---
 esp_idf_size/elf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index b20dd3c..1a567f7 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1494,7 +1494,7 @@ class Dwarf_Abbrev_Attr:
             # attributes with this form, the attribute specification contains a third part, which is
             # a signed LEB128 number. The value of this number is used as the value of the
             # attribute, and no value is stored in the .debug_info section.
-            self.value, offset = elf.get_uleb128(data, offset)
+            self.value, offset = elf.get_sleb128(data, offset)
         else:
             self.value = None
         self.size = offset - self.offset
@@ -2126,7 +2126,7 @@ class Elf:
         # SLEB128 is stored in two's complement, use ULEB128 and
         # sign extend it if necessary.
         value, offset_new = self.get_uleb128(data, offset)
-        msb = data[offset - 1]
+        msb = data[offset_new - 1]
         if not msb & 0x40:
             # SLEB128 sign bit is 7'th bit in MSB. If not set
             # it's not negative number.
-- 
2.43.0


From 5eb020e7e876bbc7f195b3cd039ece4f61241722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:37 +0000
Subject: [PATCH 07/43] fix: decode DW_FORM_ref_sig8, ref_addr, loclistx and
 rnglistx forms properly

ref_sig8 is a 64-bit signature, ref_addr has the size of an address in DWARF2 and
the loclistx and rnglistx values were read, but thrown away.
---
 esp_idf_size/elf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 1a567f7..167ae7c 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1694,7 +1694,7 @@ class Dwarf_CU:
 
         # loclist class
         elif form == DW_FORM_loclistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # loclistsptr class
@@ -1705,7 +1705,7 @@ class Dwarf_CU:
 
         # rnglist class
         elif form == DW_FORM_rnglistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # rnglistsptr
@@ -1728,9 +1728,13 @@ class Dwarf_CU:
             value, offset = self._elf.get_uleb128(data, offset)
             value += self.offset
         elif form == DW_FORM_ref_addr:
-            value, offset = self.get_offset(data, offset)
+            if self.version == 2:
+                # Dwarf2: 7.5.4 Attribute Encodings, the reference has the size of an address
+                value, offset = self.get_address(data, offset)
+            else:
+                value, offset = self.get_offset(data, offset)
         elif form == DW_FORM_ref_sig8:
-            value, offset = self._elf.get_uint8(data, offset)
+            value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
             value, offset = self._elf.get_uint32(data, offset)
         elif form == DW_FORM_ref_sup8:
-- 
2.43.0


From 2e67de11b95a1ded6e2ab8c80b488c6af7378cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:07 +0000
Subject: [PATCH 08/43] fix: handle DWARF unit headers according to the unit
 type and version

DWARF5 type and skeleton units have additional fields in the unit header and DWARF
versions 0 and 1 are not supported.
---
 esp_idf_size/elf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 167ae7c..ca8fab0 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1119,6 +1119,11 @@ DW_OP_NAME_MAP: Dict[int, str] = {
     0xEA: 'DW_OP_AARCH64_operation',
 }
 
+DW_UT_type = 0x02
+DW_UT_skeleton = 0x04
+DW_UT_split_compile = 0x05
+DW_UT_split_type = 0x06
+
 DW_CHILDREN_no = 0x00
 DW_CHILDREN_yes = 0x01
 
@@ -1590,7 +1595,13 @@ class Dwarf_CU:
             self.unit_type, offset = elf.get_uint8(data, offset)
             self.address_size, offset = elf.get_uint8(data, offset)
             self.debug_abbrev_offset, offset = self.get_offset(data, offset)
-        elif self.version <= 4:
+            # Dwarf5: 7.5.1 Unit Headers, some units have additional header fields
+            if self.unit_type in (DW_UT_skeleton, DW_UT_split_compile):
+                offset += 8  # dwo_id
+            elif self.unit_type in (DW_UT_type, DW_UT_split_type):
+                offset += 8  # type_signature
+                _, offset = self.get_offset(data, offset)  # type_offset
+        elif 2 <= self.version <= 4:
             self.debug_abbrev_offset, offset = self.get_offset(data, offset)
             self.address_size, offset = elf.get_uint8(data, offset)
         else:
-- 
2.43.0


From 746f59ac43f65dcf2ee8074e58a1f6de712bd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:07 +0000
Subject: [PATCH 09/43] fix: look up DWARF abbreviations by their code

The codes in the abbreviations table are not required to be consecutive.
---
 esp_idf_size/elf.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index ca8fab0..5d3fd16 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1560,7 +1560,7 @@ class Dwarf_CU:
     size: int
 
     _elf: 'Elf'
-    _abbrev_table: Optional[List[Optional[Dwarf_Abbrev_Entry]]]
+    _abbrev_table: Optional[Dict[int, Dwarf_Abbrev_Entry]]
     _die: Optional[Dict[int, Any]]
     _die_offset: int  # offset into the .debug_info for the first DIE
     _data: bytes  # .debug_info section data
@@ -1617,15 +1617,16 @@ class Dwarf_CU:
         self._die_offset = offset
 
     @property
-    def abbrev_table(self) -> List:
+    def abbrev_table(self) -> Dict[int, Dwarf_Abbrev_Entry]:
         if self._abbrev_table is not None:
             return self._abbrev_table
 
-        self._abbrev_table = [None]
+        # Abbreviation codes do not have to be consecutive, so use them as keys.
+        abbrev_table: Dict[int, Dwarf_Abbrev_Entry] = {}
 
         shdr = self._elf.lookup_shdr('.debug_abbrev')
         if shdr is None:
-            return self._abbrev_table
+            return abbrev_table
 
         data = shdr.data
         offset = self.debug_abbrev_offset
@@ -1638,9 +1639,10 @@ class Dwarf_CU:
                 break
 
             entry = Dwarf_Abbrev_Entry(self._elf, data, offset)
-            self._abbrev_table.append(entry)
+            abbrev_table[entry.code] = entry
             offset += entry.size
 
+        self._abbrev_table = abbrev_table
         return self._abbrev_table
 
     def get_attr_value(self, abbrev_attr: Dwarf_Abbrev_Attr, data: bytes, offset: int) -> Tuple[Any, int]:
@@ -1904,12 +1906,12 @@ class Dwarf_CU:
                     dies[die['offset']] = die
                 return die
 
+            if die['code'] not in self.abbrev_table:
+                raise Elf_Exception(f'abbreviation code {die["code"]} not found')
             abbrev_entry = self.abbrev_table[die['code']]
             die['tag'] = abbrev_entry.tag
             if filter_tags is None or die['tag'] in filter_tags:
                 dies[die['offset']] = die
-            # Sanity check that abbreviation code in .debug_info matches code in .debug_abbrev
-            assert die['code'] == abbrev_entry.code
 
             for abbrev_attr in abbrev_entry.attrs:
                 if abbrev_attr.attr == DW_AT_end:
@@ -2217,9 +2219,7 @@ class Elf:
     def dump_abbrev_table(self) -> None:
         for idx, cu in enumerate(self.CUs):
             print(f'<{cu.debug_abbrev_offset:#010x}> CU<{idx}> at offset {cu.offset:#010x}')
-            for entry in cu.abbrev_table:
-                if entry is None:
-                    continue
+            for entry in cu.abbrev_table.values():
                 print(f'<{entry.offset:#010x}>{" ":3}{entry.code} {entry.tag_name} [{entry.children}]')
                 for attr in entry.attrs:
                     print(f'<{attr.offset:#010x}>{" ":6}{attr.attr_name:30} {attr.form_name}')
-- 
2.43.0


From 62b7df5bedad9a45a8bc23d79aaec5d573f96011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:07 +0000
Subject: [PATCH 10/43] fix: do not depend on what was previously read from the
 ELF file

Attributes could not be evaluated twice, a filtered list of debugging information
entries was returned when a list with a different filter was requested and lists
partially loaded before an error were considered complete.
---
 esp_idf_size/elf.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 5d3fd16..dd230ef 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1561,7 +1561,7 @@ class Dwarf_CU:
 
     _elf: 'Elf'
     _abbrev_table: Optional[Dict[int, Dwarf_Abbrev_Entry]]
-    _die: Optional[Dict[int, Any]]
+    _dies: Dict[Optional[Tuple[int, ...]], Dict[int, Any]]
     _die_offset: int  # offset into the .debug_info for the first DIE
     _data: bytes  # .debug_info section data
     get_address: Callable  # Dwarf5: 32-bit or 64-bit offset, Dwarf5: 7.5.1.1 Full and Partial Compilation Unit Headers
@@ -1570,7 +1570,7 @@ class Dwarf_CU:
     def __init__(self, elf: 'Elf', data: bytes, offset: int):
         self._elf = elf
         self._abbrev_table = None
-        self._die = None
+        self._dies = {}
         self._data = data
 
         self.offset = offset
@@ -1782,7 +1782,7 @@ class Dwarf_CU:
 
     def get_attr_eval(self, attr: Dict[str, Any]) -> Optional[Any]:
         if 'evaluated' in attr:
-            return attr['eval']
+            return attr['evaluated']
 
         form = attr['form']
         value = attr['value']
@@ -1859,11 +1859,12 @@ class Dwarf_CU:
         return self.get_DIEs()
 
     def get_DIEs(self, filter_tags: Optional[List[int]] = None) -> Dict[int, Any]:
-        if self._die:
-            return self._die
+        # Entries already loaded with a different filter must not be returned.
+        dies_key = None if filter_tags is None else tuple(filter_tags)
+        if dies_key in self._dies:
+            return self._dies[dies_key]
 
         dies: Dict[int, Any] = {}
-        self._die = dies
 
         def get_dwarf_attr(abbrev_attr: Dwarf_Abbrev_Attr, data: bytes, offset: int) -> Dict[str, Any]:
             attr: Dict[str, Any] = {
@@ -1937,6 +1938,7 @@ class Dwarf_CU:
             return die
 
         get_DIE(self._die_offset)
+        self._dies[dies_key] = dies
         return dies
 
 
@@ -2012,7 +2014,7 @@ class Elf:
         if self._symbols is not None:
             return self._symbols
 
-        self._symbols = []
+        symbols: List[Elf_Sym] = []
 
         for shdr in self.shdrs:
             if shdr.sh_type not in (SHT_SYMTAB, SHT_DYNSYM):
@@ -2021,8 +2023,9 @@ class Elf:
             offset = 0
             while offset < shdr.sh_size:
                 sym, offset = self.get_fmt(self._sym_fmt, shdr.data, offset)
-                self._symbols.append(Elf_Sym(self, shdr.sh_link, sym))  # type: ignore
+                symbols.append(Elf_Sym(self, shdr.sh_link, sym))  # type: ignore
 
+        self._symbols = symbols
         return self._symbols
 
     @property
@@ -2030,11 +2033,11 @@ class Elf:
         if self._CUs is not None:
             return self._CUs
 
-        self._CUs = []
+        CUs: List[Dwarf_CU] = []
 
         shdr = self.lookup_shdr('.debug_info')
         if shdr is None:
-            return self._CUs
+            return CUs
 
         offset = 0
 
@@ -2042,8 +2045,9 @@ class Elf:
             cu = Dwarf_CU(self, shdr.data, offset)
             # Dwarf5: 7.5.1.1 CU length does not include size of the unit_length field
             offset += len(cu.unit_length) + cu.length
-            self._CUs.append(cu)
+            CUs.append(cu)
 
+        self._CUs = CUs
         return self._CUs
 
     def read(self, offset: int, count: int) -> bytes:
-- 
2.43.0


From bdf949c1f32ce2f5d23d309eb8c5311ab36f8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:22 +0000
Subject: [PATCH 11/43] fix: handle empty DWARF locations and units without
 name

A variable which was optimized out may have an empty location description and the
name of the compilation unit is optional.
---
 esp_idf_size/elf.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index dd230ef..110baaa 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1822,10 +1822,12 @@ class Dwarf_CU:
                     stack = [None]
                     break
 
-            if len(stack) != 1:
+            if len(stack) > 1:
                 raise Elf_Exception(f'invalid DWARF stack {stack}')
 
-            evaluated = stack.pop()
+            # Dwarf5: 2.6.1.1.4 Empty Location Descriptions
+            # Empty expression means that the object is not present.
+            evaluated = stack.pop() if stack else None
 
         else:
             # Evaluation of form is not supported.
@@ -2161,13 +2163,16 @@ class Elf:
         dies: Dict[int, Dict[str, Any]] = {}
         syms_dict: Dict[int, Elf_Sym] = {}
 
-        def get_cu_name(die: Dict[str, Any]) -> str:
+        def get_cu_name(die: Dict[str, Any]) -> Optional[str]:
             dw_at_abstract_origin = die['attrs'].get(DW_AT_abstract_origin)
             if dw_at_abstract_origin:
-                die = dies[int(dw_at_abstract_origin['value'])]
+                die = dies.get(int(dw_at_abstract_origin['value']), die)
 
             cu = die['cu']
-            cu_die = dies[cu._die_offset]
+            cu_die = dies.get(cu._die_offset)
+            if cu_die is None or DW_AT_name not in cu_die['attrs']:
+                # Not a compilation unit or a compilation unit without name
+                return None
 
             cu_name = cu.get_attr_str(cu_die['attrs'][DW_AT_name])
             return str(cu_name)
@@ -2200,7 +2205,7 @@ class Elf:
                     # Address not in symbol table
                     continue
 
-                syms_dict[addr].cu_name = get_cu_name(die)
+                syms_dict[addr].cu_name = get_cu_name(die) or syms_dict[addr].cu_name
 
             elif die['tag'] == DW_TAG_variable:
                 dw_at_location = die['attrs'].get(DW_AT_location)
@@ -2216,7 +2221,7 @@ class Elf:
                     # Address not in symbol table
                     continue
 
-                syms_dict[addr].cu_name = get_cu_name(die)
+                syms_dict[addr].cu_name = get_cu_name(die) or syms_dict[addr].cu_name
 
         return syms_dict
 
-- 
2.43.0


From c4a7627c65fe6d6c1c2a9af3f03571e885e0e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:18 +0000
Subject: [PATCH 12/43] fix: report truncated or corrupted ELF file instead of
 a traceback

The ELF symbols, section names and DWARF information are read lazily, so errors in
them were not reported as any other errors in the ELF file.
---
 esp_idf_size/elf.py       | 37 ++++++++++++++++++++++++++++---------
 esp_idf_size/memorymap.py | 13 ++++++++++++-
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 110baaa..531a24a 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1,5 +1,6 @@
 # SPDX-FileCopyrightText: 2024-2026 Espressif Systems (Shanghai) CO LTD
 # SPDX-License-Identifier: Apache-2.0
+import os
 import struct
 from dataclasses import dataclass
 from typing import Any, Callable, ClassVar, Dict, List, Optional, Tuple, Union
@@ -1404,7 +1405,7 @@ class Elf_Shdr:
     @property
     def name(self) -> str:
         if self._name is None:
-            self._name = self._elf.lookup_string(self._elf.shdrs[self._elf.ehdr.e_shstrndx], self.sh_name).decode()
+            self._name = self._elf.lookup_string(self._elf.get_shdr(self._elf.ehdr.e_shstrndx), self.sh_name).decode()
         return self._name
 
 
@@ -1449,7 +1450,7 @@ class Elf_Sym:
     @property
     def name(self) -> str:
         if self._name is None:
-            self._name = self._elf.lookup_string(self._elf.shdrs[self._strndx], self.st_name).decode()
+            self._name = self._elf.lookup_string(self._elf.get_shdr(self._strndx), self.st_name).decode()
         return self._name
 
     @property
@@ -1939,7 +1940,10 @@ class Dwarf_CU:
             die['size'] = offset - die['offset']
             return die
 
-        get_DIE(self._die_offset)
+        try:
+            get_DIE(self._die_offset)
+        except RecursionError:
+            raise Elf_Exception('debugging information entries are nested too deeply')
         self._dies[dies_key] = dies
         return dies
 
@@ -2053,6 +2057,8 @@ class Elf:
         return self._CUs
 
     def read(self, offset: int, count: int) -> bytes:
+        if offset + count > os.fstat(self.fd.fileno()).st_size:
+            raise Elf_Exception(f'error while reading ELF file at offset {offset}')
         self.fd.seek(offset)
         data = self.fd.read(count)
         if len(data) != count:
@@ -2060,8 +2066,12 @@ class Elf:
         return data
 
     def lookup_string(self, shdr: Elf_Shdr, index: int) -> bytes:
-        end = shdr.data.index(b'\x00', index)
-        return shdr.data[index:end]
+        return self.get_string(shdr.data, index)[0]
+
+    def get_shdr(self, index: int) -> Elf_Shdr:
+        if index >= len(self.shdrs):
+            raise Elf_Exception(f'invalid ELF section index {index}')
+        return self.shdrs[index]
 
     def lookup_shdr(self, name: str) -> Optional[Elf_Shdr]:
         for shdr in self.shdrs:
@@ -2071,21 +2081,28 @@ class Elf:
 
     def get_fmt(self, fmt: str, data: bytes, offset: int = 0) -> Tuple[Tuple[Union[int, bytes], ...], int]:
         endian = '<' if self._byteorder == 'little' else '>'
-        return (struct.unpack_from(endian + fmt, data, offset), offset + struct.calcsize(endian + fmt))
+        try:
+            return (struct.unpack_from(endian + fmt, data, offset), offset + struct.calcsize(endian + fmt))
+        except struct.error as e:
+            raise Elf_Exception(f'unexpected end of ELF data: {e}')
 
     def get_bytes(self, cnt: int, data: bytes, offset: int = 0) -> Tuple[bytes, int]:
         value = data[offset : offset + cnt]
+        if len(value) != cnt:
+            raise Elf_Exception(f'unexpected end of ELF data at offset {offset}')
         offset += cnt
         return value, offset
 
     def get_string(self, data: bytes, offset: int = 0) -> Tuple[bytes, int]:
-        end = data.index(b'\x00', offset)
+        end = data.find(b'\x00', offset)
+        if end == -1:
+            raise Elf_Exception(f'unterminated string in ELF data at offset {offset}')
         value = data[offset:end]
         return value, end + 1
 
     def get_int(self, data: bytes, size: int, offset: int = 0, signed: bool = False) -> Tuple[int, int]:
-        value = int.from_bytes(data[offset : offset + size], byteorder=self._byteorder, signed=signed)  # type: ignore
-        offset += size
+        raw, offset = self.get_bytes(size, data, offset)
+        value = int.from_bytes(raw, byteorder=self._byteorder, signed=signed)  # type: ignore
         return value, offset
 
     def get_uint8(self, data: bytes, offset: int = 0) -> Tuple[int, int]:
@@ -2136,6 +2153,8 @@ class Elf:
         # Dwarf5: Figure C.3: Algorithm to decode an unsigned LEB128 integer
         res = idx = 0
         while True:
+            if offset + idx >= len(data):
+                raise Elf_Exception(f'unexpected end of ELF data at offset {offset}')
             res |= (data[offset + idx] & 0x7F) << (idx * 7)
             idx += 1
             if not data[offset + idx - 1] & 0x80:
diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 46360aa..0ebbe78 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1093,9 +1093,16 @@ def _load_elf_file(fn: str) -> Optional[Elf]:
     elf = None
     try:
         elf = Elf(fn)
+        # Symbols and section names are read lazily, make sure the file is not truncated or corrupted.
+        for shdr in elf.shdrs:
+            shdr.name
+        for sym in elf.symbols:
+            sym.name
     except (OSError, ValueError) as e:
+        elf = None
         log.err(f'cannot read project ELF file {fn}: {e}')
     except Elf_Exception as e:
+        elf = None
         log.err(f'cannot parse ELF file {fn}: {e}')
 
     log.debug(f'elf file {fn}')
@@ -1319,7 +1326,11 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
             sym.archive_path = component['archive_relpath']  # type: ignore
 
     # Get symbols with CU name info if available
-    symbols: Dict[int, Elf_Sym] = elf.add_cus_to_symbols()
+    try:
+        symbols: Dict[int, Elf_Sym] = elf.add_cus_to_symbols()
+    except (Elf_Exception, ValueError) as e:
+        log.warn(f'ignoring DWARF information because it cannot be parsed: {e}')
+        return
 
     # Remove symbols with zero size and symbols for which we don't have CU name
     symbols = {k: v for k, v in symbols.items() if v.st_size and v.cu_name}
-- 
2.43.0


From 93692c907cc6ee5d39d3c1f9ac0b87dba21b2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:33 +0000
Subject: [PATCH 13/43] fix: report invalid numbers and incomplete entries in
 the linker map file

Invalid numbers, input sections without address and incomplete cross reference table
entries ended with a traceback or were silently ignored.
---
 esp_idf_size/mapfile.py | 59 +++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 5cddd24..e0e8540 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -35,6 +35,15 @@ class MapFile:
 
         return lines
 
+    def _get_int(self, value: str, line: str, ln: int) -> int:
+        try:
+            number = int(value, 0)
+        except ValueError:
+            number = -1
+        if number < 0:
+            raise MapFileException(f'invalid number "{value}" in "{line}" at line {ln + 1} in "{self.fn}" map file')
+        return number
+
     def _get_memory_regions(self) -> List[Dict[str, Any]]:
         regions: List[Dict[str, Any]] = []
         found = False
@@ -68,7 +77,14 @@ class MapFile:
                     f'in "Memory Configuration" section in "{self.fn}" map file'
                 )
 
-            regions.append({'name': name, 'origin': int(origin, 0), 'length': int(length, 0), 'attrs': attrs})
+            regions.append(
+                {
+                    'name': name,
+                    'origin': self._get_int(origin, line, ln),
+                    'length': self._get_int(length, line, ln),
+                    'attrs': attrs,
+                }
+            )
 
         if not found or not header:
             raise MapFileException(f'cannot parse "Memory Configuration" section in "{self.fn}" map file')
@@ -184,6 +200,12 @@ class MapFile:
              .rodata.str1.1
                             0x0000000000402013       0x12 test2.o
             """
+            if input_section['address'] is None:
+                raise MapFileException(
+                    f'missing address of input section "{input_section["name"]}" '
+                    f'in "Linker script and memory map" section in "{self.fn}" map file'
+                )
+
             if (
                 input_section['address'] < output_section['address']
                 or input_section['address'] >= output_section['address'] + output_section['size']
@@ -258,15 +280,10 @@ class MapFile:
                     output_section['size'] = 0
 
                     split = line.split()
-                    if len(split) == 2:
-                        try:
-                            address = int(split[0], 0)
-                            size = int(split[1], 0)
-                            # Output section has address and length on the second line.
-                            output_section['address'] = address
-                            output_section['size'] = size
-                        except ValueError:
-                            pass
+                    if len(split) == 2 and any(s.startswith('0x') for s in split):
+                        # Output section has address and length on the second line.
+                        output_section['address'] = self._get_int(split[0], line, ln)
+                        output_section['size'] = self._get_int(split[1], line, ln)
 
                 elif line.startswith(('.', 'COMMON')):
                     # New input section
@@ -288,8 +305,8 @@ class MapFile:
                         input_section['name'] = split[0]
                     elif len(split) == 4:
                         input_section['name'] = split[0]
-                        input_section['address'] = int(split[1], 0)
-                        input_section['size'] = int(split[2], 0)
+                        input_section['address'] = self._get_int(split[1], line, ln)
+                        input_section['size'] = self._get_int(split[2], line, ln)
                         input_section['archive'], input_section['object_file'] = self._get_archive_object_file(split[3])
                     else:
                         raise MapFileException(
@@ -307,8 +324,8 @@ class MapFile:
                                 f'unexpected input section continuous line "{line}" at line {ln + 1} in '
                                 f'"Linker script and memory map" section in "{self.fn}" map file'
                             )
-                        input_section['address'] = int(split[0], 0)
-                        input_section['size'] = int(split[1], 0)
+                        input_section['address'] = self._get_int(split[0], line, ln)
+                        input_section['size'] = self._get_int(split[1], line, ln)
                         input_section['archive'], input_section['object_file'] = self._get_archive_object_file(split[2])
 
                     elif line.startswith('*fill*'):
@@ -319,8 +336,8 @@ class MapFile:
                                 f'unexpected "*fill*" line "{line}" at line {ln + 1} '
                                 f'in "Linker script and memory map" section in "{self.fn}" map file'
                             )
-                        address = int(split[1], 0)
-                        size = int(split[2], 0)
+                        address = self._get_int(split[1], line, ln)
+                        size = self._get_int(split[2], line, ln)
                         if input_section['address'] == address:
                             # Input section address is the same as *fill* address. Set input
                             # section size to zero, but keep the *fill* size. It will be accounted
@@ -336,7 +353,7 @@ class MapFile:
                         # section.
                         split = line.split()
                         if len(split) == 4 and split[2] in self.EXPLICIT_BYTES:
-                            input_section['fill'] += int(split[1], 0)
+                            input_section['fill'] += self._get_int(split[1], line, ln)
 
             elif line.startswith('.'):
                 # Detected new output section. There are two cases
@@ -366,8 +383,8 @@ class MapFile:
                     output_section['name'] = split[0]
                 elif len(split) == 3:
                     output_section['name'] = split[0]
-                    output_section['address'] = int(split[1], 0)
-                    output_section['size'] = int(split[2], 0)
+                    output_section['address'] = self._get_int(split[1], line, ln)
+                    output_section['size'] = self._get_int(split[2], line, ln)
                 else:
                     raise MapFileException(
                         f'unexpected format of output section "{line}" at line {ln + 1} '
@@ -375,7 +392,7 @@ class MapFile:
                     )
 
         if not found:
-            raise MapFileException('cannot parse "Linker script and memory map" section in "{self.fn}" map file')
+            raise MapFileException(f'cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
         log.debug('linker map output sections', output_sections)
 
@@ -439,6 +456,8 @@ class MapFile:
                 split = line.split(maxsplit=1)
                 if len(split) != 2:
                     log.err(f'unexpected format of cross reference table entry "{line}"')
+                    symbol = None
+                    continue
 
                 symbol = split[0]
                 definition = split[1]
-- 
2.43.0


From 40cc6a7c3303151f8c47d94d9e840b51f91d49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:33 +0000
Subject: [PATCH 14/43] fix: do not lose the last output section at the end of
 the linker map file

---
 esp_idf_size/mapfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index e0e8540..bfb839a 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -391,6 +391,12 @@ class MapFile:
                         f'in "Linker script and memory map" section in "{self.fn}" map file'
                     )
 
+        if in_output_section:
+            # Without the cross reference table the last output section is not followed by an empty line.
+            if input_section:
+                add_input_section(output_section, input_section)
+            output_sections.append(output_section)
+
         if not found:
             raise MapFileException(f'cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
-- 
2.43.0


From 563631f9735bfe0050f72c6ddf9e8d8791fc3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 15/43] fix: account all parts of an output section within one
 memory type

An output section split by memory regions, which belong to the same memory type, was
reported only with one of its parts.
---
 esp_idf_size/memorymap.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 0ebbe78..ad31cf1 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1470,6 +1470,19 @@ def _get_memory_types(target: str) -> Dict[str, Any]:
     return memory_types
 
 
+def _merge_items(items: Dict[str, Any], new_items: Dict[str, Any]) -> None:
+    # Add new sections, archives, object files or symbols and sum up the ones already present. For example an
+    # output section split between two adjacent memory regions may end up in the same memory type twice.
+    for name, info in new_items.items():
+        if name not in items:
+            items[name] = info
+            continue
+        items[name]['size'] += info['size']
+        for sublevel in ('archives', 'object_files', 'symbols'):
+            if sublevel in info:
+                _merge_items(items[name][sublevel], info[sublevel])
+
+
 def _get_mem_type_map(
     memory_types: Dict[str, Any], memory_regions: List[Dict[str, Any]], map_sections: List[Dict[str, Any]]
 ) -> Dict[str, Any]:
@@ -1539,12 +1552,13 @@ def _get_mem_type_map(
             # chips where the PSRAM and flash data linker regions share an
             # address window.
             memory_map[ext_ram_alias]['used'] += map_section['size']
-            memory_map[ext_ram_alias]['sections'][map_section['name']] = {
+            section = {
                 'abbrev_name': map_section['abbrev_name'],
                 'size': map_section['size'],
                 'size_diff': 0,
                 'archives': map_section['archives'],
             }
+            _merge_items(memory_map[ext_ram_alias]['sections'], {map_section['name']: section})
             continue
         prev_mem_reg = None
         for mem_reg in memory_regions_sorted:
@@ -1560,12 +1574,13 @@ def _get_mem_type_map(
                     )
 
                 memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section['name']] = {
+                section = {
                     'abbrev_name': map_section['abbrev_name'],
                     'size': map_section['size'],
                     'size_diff': 0,
                     'archives': map_section['archives'],
                 }
+                _merge_items(memory_map[mem_type_alias]['sections'], {map_section['name']: section})
                 break
             elif address > map_section['address'] and prev_mem_reg:
                 mem_type_alias = prev_mem_reg['type']['name']
@@ -1590,12 +1605,13 @@ def _get_mem_type_map(
                 map_section_name = map_section['name'] + '_overflow'
 
                 memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section_name] = {
+                section = {
                     'abbrev_name': _abbrev(map_section_name),
                     'size': map_section['size'],
                     'size_diff': 0,
                     'archives': map_section['archives'],
                 }
+                _merge_items(memory_map[mem_type_alias]['sections'], {map_section_name: section})
                 break
 
             prev_mem_reg = mem_reg
-- 
2.43.0


From 1242b4e6ef2a9fa961d4ec9104bca8185d7d37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 16/43] fix: use the ELF object passed to memorymap.get

The elf argument was overwritten with None.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index ad31cf1..8b49d7e 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -195,7 +195,7 @@ def get(
         'memory_types': {},
     }
 
-    proj_desc = map_fn = elf = target = None
+    proj_desc = map_fn = target = None
 
     map_fn = os.path.abspath(input_fn)
 
-- 
2.43.0


From b375ac17e4add6407197c75c05c223e93d15b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 17/43] fix: do not modify map file passed to memorymap.get

---
 esp_idf_size/memorymap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 8b49d7e..440932a 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -224,6 +224,12 @@ def get(
     except mapfile.MapFileException as e:
         raise MemMapException(e)
 
+    # The sections are adjusted below, so make sure that the map file passed by the caller stays intact.
+    map_file = copy.copy(map_file)
+    map_file.sections = [
+        {**osec, 'input_sections': [isec.copy() for isec in osec['input_sections']]} for osec in map_file.sections
+    ]
+
     # Validate the parsed map file. If validation fails, it is not a critical
     # error, but the parsing might need correction or adjustment, so print a warning.
     try:
-- 
2.43.0


From 1209593a44b4b7825539281ac7a626bc40c6190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 18/43] fix: endless loop for memory regions exceeding a memory
 type

A memory region, whose part is out of all memory types and which ends where another
memory region ends, was added over and over.
---
 esp_idf_size/memorymap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 440932a..f1f6d0c 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -909,7 +909,9 @@ def _split_memory_regions(memory_regions: List[Dict[str, Any]], memory_types: Di
                 # rtc_fast_reserved_seg for esp32. We could probably just skip
                 # such memory regions, but let's sanity check this situation.
                 for mem_reg_splitted in memory_regions_splitted.copy():
-                    if mem_reg_origin + mem_reg_length == mem_reg_splitted['origin'] + mem_reg_splitted['length']:
+                    if mem_reg_length:
+                        continue
+                    if mem_reg_origin == mem_reg_splitted['origin'] + mem_reg_splitted['length']:
                         memory_regions_splitted.append(
                             {
                                 'name': mem_reg['name'],
-- 
2.43.0


From 1ebcb6b3c705399dfbe0960266e6ecf3bb047590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 19/43] fix: no empty entries for items adjacent to the address
 where output section is split

---
 esp_idf_size/memorymap.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f1f6d0c..ff1a6b9 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1018,7 +1018,7 @@ def _split_map_sections(sections: List[Dict[str, Any]], regions: List[Dict[str,
                 if input_section_end <= split_addr:
                     # Input section fully fits into new output section1
                     section1['input_sections'].append(input_section)
-                elif input_section['address'] > split_addr:
+                elif input_section['address'] >= split_addr:
                     # Input section fully fits into new output section2
                     section2['input_sections'].append(input_section)
                 else:
@@ -1040,7 +1040,7 @@ def _split_map_sections(sections: List[Dict[str, Any]], regions: List[Dict[str,
                         if symbol_end_addr <= split_addr:
                             # Symbol fully fits into new input section1
                             input_section1['symbols'].append(symbol)
-                        elif symbol['address'] > split_addr:
+                        elif symbol['address'] >= split_addr:
                             # Symbol fully fits into new input section2
                             input_section2['symbols'].append(symbol)
                         else:
@@ -1056,7 +1056,9 @@ def _split_map_sections(sections: List[Dict[str, Any]], regions: List[Dict[str,
                             input_section2['symbols'].append(symbol2)
 
                     section1['input_sections'].append(input_section1)
-                    section2['input_sections'].append(input_section2)
+                    if input_section2['size']:
+                        # Not just the padding is beyond the split address
+                        section2['input_sections'].append(input_section2)
                     log.debug(
                         f'linker map input section {input_section["name"]} split at address {split_addr}',
                         input_section,
-- 
2.43.0


From a47328b0fd4c92e32ea8ba703bdac0fab36c852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 20/43] fix: do not assign output section to a memory region
 above it

If there is no memory region preceding the output section, the section was assigned to
the first memory region, even though it's located above the section.
---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index ff1a6b9..86d147a 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1624,7 +1624,8 @@ def _get_mem_type_map(
                 _merge_items(memory_map[mem_type_alias]['sections'], {map_section_name: section})
                 break
 
-            prev_mem_reg = mem_reg
+            if address <= map_section['address']:
+                prev_mem_reg = mem_reg
 
         else:
             log.warn(
-- 
2.43.0


From 0865181090b682e1bd5515afc9f040948c2d3285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 21/43] fix: represent all input sections without ELF symbols
 by their names

Input sections after the last ELF symbol were left without any symbol and an image
without input sections ended with a traceback.
---
 esp_idf_size/memorymap.py | 45 ++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 86d147a..d8a8d50 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1149,6 +1149,9 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
 
     isections = [s for s in sorted(isections, key=lambda s: s.get('address', 0))]  # s.get used to help mypy
 
+    if not isections:
+        return
+
     # Add ELF symbols into input sections
     isec = isections.pop(0)
     for symbol in symbols:
@@ -1160,26 +1163,6 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
                 # Sanity check that we found input section for symbol
                 raise MemMapException(f'cannot find input section for symbol {sym_name}({sym_addr})')
 
-            if not isec['symbols']:
-                # Input section does not have any ELF symbols assigned.
-                # In e.g. .data or .rodata sections, there might be literals, which do not have symbols
-                # in symbol table. Since the binary is compiled with -fdata-sections, let's add the input
-                # section as "symbol". This should avoid displaying "holes" in the reports. Generally it's
-                # still possible that some libraries/objects, which are e.g. not compiled with -fdata-sections,
-                # may still be missing some "symbols". For example libc.a->lib_a-vfprintf.o: 657 != 117
-                # lib_a-vfprintf.o 657
-                # ├── blanks.1 16
-                # ├── zeroes.0 16
-                # ├── .rodata.str1.4 53
-                # └── .srodata.cst8 32
-                isec['symbols'].append(
-                    {
-                        'name': isec['name'],
-                        'address': isec['address'],
-                        'size': isec['size'],
-                    }
-                )
-
             # Jump to next input section
             isec = isections.pop(0)
 
@@ -1208,6 +1191,28 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
             }
         )
 
+    for osec in osections:
+        for isec in osec['input_sections']:
+            if not isec['symbols']:
+                # Input section does not have any ELF symbols assigned.
+                # In e.g. .data or .rodata sections, there might be literals, which do not have symbols
+                # in symbol table. Since the binary is compiled with -fdata-sections, let's add the input
+                # section as "symbol". This should avoid displaying "holes" in the reports. Generally it's
+                # still possible that some libraries/objects, which are e.g. not compiled with -fdata-sections,
+                # may still be missing some "symbols". For example libc.a->lib_a-vfprintf.o: 657 != 117
+                # lib_a-vfprintf.o 657
+                # ├── blanks.1 16
+                # ├── zeroes.0 16
+                # ├── .rodata.str1.4 53
+                # └── .srodata.cst8 32
+                isec['symbols'].append(
+                    {
+                        'name': isec['name'],
+                        'address': isec['address'],
+                        'size': isec['size'],
+                    }
+                )
+
     log.debug('linker map output sections filtered with symbols', osections)
 
 
-- 
2.43.0


From 7d2733135c0dae438bd43f66d8f40dc9be7d13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:03 +0000
Subject: [PATCH 22/43] fix: do not mix up components whose directory names
 have a common prefix

---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index d8a8d50..c7368e3 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1321,7 +1321,7 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
         # Find component to which the symbol belongs to
         for component in components:
             # NOTE: Elf_Sym is dynamically extended with cu_path and archive_path attribute and mypy doesn't like it
-            if sym.cu_path.startswith(component['component_path']):  # type: ignore
+            if sym.cu_path.startswith(component['component_path'].rstrip('/') + '/'):  # type: ignore
                 # The components list is sorted based on component_path length, from longest to shortest.
                 # The longest possible match was found, so return. There is no need to search further.
                 return component
-- 
2.43.0


From 2fbde3430c5c702c2c69ecaff60aa15bb291288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:03 +0000
Subject: [PATCH 23/43] fix: do not lose LTO input section if no symbol follows
 it

The part of the input section, which is not covered by symbols, was kept only if there
was a symbol behind the input section.
---
 esp_idf_size/memorymap.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index c7368e3..be4ba0d 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1441,17 +1441,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isec['size'] -= sym.st_size
                 else:
                     # No other symbols fit into this input section
-                    if isec['size'] or not isecs_new:
-                        # There is some part(tail) of the original input section, which
-                        # was not covered by any symbol. Or no symbol fits into this
-                        # input section at all and isecs_new is empty.
-                        isecs_new.append(isec)
-                    else:
-                        # Whole input section was covered by symbols. If it had filling,
-                        # account it into the lastly added input section.
-                        isecs_new[-1]['fill'] = isec['fill']
                     break
 
+            if isec['size'] or not isecs_new:
+                # There is some part(tail) of the original input section, which
+                # was not covered by any symbol. Or no symbol fits into this
+                # input section at all and isecs_new is empty.
+                isecs_new.append(isec)
+            else:
+                # Whole input section was covered by symbols. If it had filling,
+                # account it into the lastly added input section.
+                isecs_new[-1]['fill'] += isec['fill']
+
         # Finally assign expanded input sections into the output section
         osec['input_sections'] = isecs_new
 
-- 
2.43.0


From 5df569aa321f5488f75232e72101794e97e47161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:03 +0000
Subject: [PATCH 24/43] fix: handle invalid project description and
 configuration files

Valid JSON files with unexpected content ended with a traceback.
---
 esp_idf_size/memorymap.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index be4ba0d..6c2ece1 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -215,7 +215,9 @@ def get(
             use_dwarf = False
 
     if proj_desc:
-        target = proj_desc['target']
+        target = proj_desc.get('target')
+        if not isinstance(target, str):
+            target = None
 
     # Parse linker map file memory regions, target, output sections and
     # cross reference table
@@ -1093,10 +1095,10 @@ def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     try:
         with open(fn) as f:
             data = json.load(f)
-    except (OSError, ValueError) as e:
+    except (OSError, ValueError, RecursionError) as e:
         log.debug(f'{fn} is not available: {e}')
 
-    return data
+    return data if isinstance(data, dict) else None
 
 
 def _load_elf_file(fn: str) -> Optional[Elf]:
@@ -1350,14 +1352,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
     # Remove symbols with zero size and symbols for which we don't have CU name
     symbols = {k: v for k, v in symbols.items() if v.st_size and v.cu_name}
 
-    # Get list of components with archive file, removing CONFIG_ONLY components
-    components = [comp for comp in proj_desc['build_component_info'].values() if comp['file']]
-
-    # Add component_path and relative, to build directory, archive path to components in posix form
-    build_dir_path = Path(proj_desc['build_dir']).as_posix()
-    for comp in components:
-        comp['component_path'] = Path(comp['dir']).as_posix()
-        comp['archive_relpath'] = Path(comp['file']).relative_to(build_dir_path).as_posix()
+    try:
+        # Get list of components with archive file, removing CONFIG_ONLY components
+        components = [comp for comp in proj_desc['build_component_info'].values() if comp['file']]
+
+        # Add component_path and relative, to build directory, archive path to components in posix form
+        build_dir_path = Path(proj_desc['build_dir']).as_posix()
+        for comp in components:
+            comp['component_path'] = Path(comp['dir']).as_posix()
+            comp['archive_relpath'] = Path(comp['file']).relative_to(build_dir_path).as_posix()
+    except (AttributeError, KeyError, TypeError, ValueError) as e:
+        log.warn(f'ignoring DWARF information because project description information is invalid: {e!r}')
+        return
 
     # Sort components in descending order based on their paths, from longest to shortest.
     components = [comp for comp in sorted(components, key=lambda c: len(c['component_path']), reverse=True)]
@@ -1653,6 +1659,8 @@ def get_proj_desc(map_fn: str) -> Optional[Dict[str, Any]]:
     # In multi-executable projects, project_description.json may reference a
     # different executable than the map file passed to esp-idf-size.
     app_elf = proj_desc.get('app_elf', '')
+    if not isinstance(app_elf, str):
+        app_elf = ''
     map_stem = os.path.splitext(os.path.basename(map_fn))[0]
     elf_stem = os.path.splitext(os.path.basename(app_elf))[0]
     if map_stem != elf_stem:
-- 
2.43.0


From 17ab8661c61e0bfb9e70e6e054ed3efef77d1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:03 +0000
Subject: [PATCH 25/43] fix: ignore flash size of the reference project too

Otherwise the total size difference contains the flash size of the reference project.
---
 esp_idf_size/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 5d27fb9..820b780 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -127,7 +127,7 @@ def _run(args: Dict[str, Any]) -> None:
             if not args['show_unused']:
                 memorymap.remove_unused(memmap_ref)
             if not args['use_flash_size']:
-                memorymap.ignore_flash_size(memmap)
+                memorymap.ignore_flash_size(memmap_ref)
             memmap = memorymap.diff(memmap, memmap_ref)
             if memmap['target'] != memmap['target_diff']:
                 log.warn(
-- 
2.43.0


From af67215416b768d96ab604e5e8b44213aea21433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:03 +0000
Subject: [PATCH 26/43] fix: sum up sizes of all entries reported under one
 name

With the --unify option one entry in the files and symbols reports represents several
entries in the memory map, but only the last one was reported for the given section.
---
 esp_idf_size/memorymap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 6c2ece1..076de6a 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -763,12 +763,12 @@ def get_symbols_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Dic
 
         symbol_mem_type = symbol['memory_types'][mem_type_name]
         size = symbol_info['size']
-        symbol_mem_type['sections'][section_name]['size'] = size
+        symbol_mem_type['sections'][section_name]['size'] += size
         symbol_mem_type['size'] += size
         symbol['size'] += size
 
         size = symbol_info['size_diff']
-        symbol_mem_type['sections'][section_name]['size_diff'] = size
+        symbol_mem_type['sections'][section_name]['size_diff'] += size
         symbol_mem_type['size_diff'] += size
         symbol['size_diff'] += size
 
@@ -811,12 +811,12 @@ def get_object_files_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -
 
         object_file_mem_type = object_file['memory_types'][mem_type_name]
         size = object_file_info['size']
-        object_file_mem_type['sections'][section_name]['size'] = size
+        object_file_mem_type['sections'][section_name]['size'] += size
         object_file_mem_type['size'] += size
         object_file['size'] += size
 
         size = object_file_info['size_diff']
-        object_file_mem_type['sections'][section_name]['size_diff'] = size
+        object_file_mem_type['sections'][section_name]['size_diff'] += size
         object_file_mem_type['size_diff'] += size
         object_file['size_diff'] += size
 
@@ -844,12 +844,12 @@ def get_archives_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Di
 
         archive_mem_type = archive['memory_types'][mem_type_name]
         size = archive_info['size']
-        archive_mem_type['sections'][section_name]['size'] = size
+        archive_mem_type['sections'][section_name]['size'] += size
         archive_mem_type['size'] += size
         archive['size'] += size
 
         size = archive_info['size_diff']
-        archive_mem_type['sections'][section_name]['size_diff'] = size
+        archive_mem_type['sections'][section_name]['size_diff'] += size
         archive_mem_type['size_diff'] += size
         archive['size_diff'] += size
 
-- 
2.43.0


From 2b084970e57c831e63688011bb4fe0f14193457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:04 +0000
Subject: [PATCH 27/43] fix: do not truncate percentages before sorting

---
 esp_idf_size/memorymap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 076de6a..322b1c6 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -676,14 +676,14 @@ def _get_summary_memory_types(memory_map: Dict[str, Any]) -> Dict[str, Any]:
 
 
 def sort_dict_by_key(dictionary: Dict[str, Any], key: str, reverse: bool) -> Dict[str, Any]:
-    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: int(item[1][key]), reverse=reverse)}
+    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: item[1][key], reverse=reverse)}
 
 
 def get_summary_sorted(entries: Dict[str, Any], args: Dict[str, Any]) -> Dict[str, Any]:
     sort_key = 'size_diff' if args['sort_diff'] else 'size'
     reverse = args['sort_reverse']
 
-    entries = {k: v for k, v in sorted(entries.items(), key=lambda item: int(item[1][sort_key]), reverse=reverse)}
+    entries = {k: v for k, v in sorted(entries.items(), key=lambda item: item[1][sort_key], reverse=reverse)}
 
     for entry_name, entry_info in entries.items():
         entry_info['memory_types'] = sort_dict_by_key(entry_info['memory_types'], sort_key, reverse)
-- 
2.43.0


From c610a8c618247db8f41d8c254c94010b59283695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:04 +0000
Subject: [PATCH 28/43] fix: no children for symbols in unified memory map

---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 322b1c6..e2aa65b 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -469,8 +469,9 @@ def unify(memory_map: Dict[str, Any]) -> None:
                     'abbrev_name': original_item_info['abbrev_name'],
                     'size': original_item_info['size'],
                     'size_diff': original_item_info['size_diff'],
-                    sublevel: {},
                 }
+                if sublevel is not None:
+                    unified_item_info[sublevel] = {}
                 unified[original_item_name_abbrev] = unified_item_info
             else:
                 unified_item_info['size'] += original_item_info['size']
-- 
2.43.0


From 7d9ad954857736f2048654b2ec82086554c22308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:04 +0000
Subject: [PATCH 29/43] fix: sum up sections with the same abbreviated name in
 JSON summary

The size of only one of them was reported.
---
 esp_idf_size/format_json.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index fad4a18..502fafd 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -16,6 +16,7 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     }
 
     memorymap.sort(memmap, args)
+    sort_key = 'size_diff' if args['sort_diff'] else 'size'
 
     for mem_type_name, mem_type_info in memmap['memory_types'].items():
         mem_type = {
@@ -23,14 +24,17 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
             'total': mem_type_info['size'],
             'used': mem_type_info['used'],
             'free': mem_type_info['size'] - mem_type_info['used'] if mem_type_info['size'] else 0,
-            'parts': {},
         }
         summary['layout'].append(mem_type)
+        parts: Dict[str, Any] = {}
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
-            mem_type['parts'][name] = {
-                'size': section_info['size'],
-            }
+            # Several sections may have the same abbreviated name.
+            part = parts.setdefault(name, {'size': 0, 'size_diff': 0})
+            part['size'] += section_info['size']
+            part['size_diff'] += section_info['size_diff']
+        parts = memorymap.sort_dict_by_key(parts, sort_key, args['sort_reverse'])
+        mem_type['parts'] = {name: {'size': part['size']} for name, part in parts.items()}
 
     log.print(json.dumps(summary, indent=4))
 
-- 
2.43.0


From b16226cf581d022ce85a313ca735b9650358f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:04 +0000
Subject: [PATCH 30/43] fix: stable order of archives in the dependencies
 reports

The order of archives depended on the hash seed.
---
 esp_idf_size/deps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/deps.py b/esp_idf_size/deps.py
index 0e22228..5bda1f6 100644
--- a/esp_idf_size/deps.py
+++ b/esp_idf_size/deps.py
@@ -29,7 +29,7 @@ def get_archives_deps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) -> Di
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        ref_archives = list(dict.fromkeys(ref[0] for ref in refs[1:]))
 
         for ref_archive in ref_archives:
             if ref_archive not in archives:
@@ -72,7 +72,7 @@ def get_archives_revdeps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) ->
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        ref_archives = list(dict.fromkeys(ref[0] for ref in refs[1:]))
 
         if def_archive not in archives:
             archives[def_archive] = {
-- 
2.43.0


From 97e1f7fbba1f696b647bb81ff8a041fd9e1610ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:24 +0000
Subject: [PATCH 31/43] fix: archive dependencies in unified memory map

The report was empty, because the cross reference table contains full archive names,
while archives in the unified memory map are identified by the abbreviated ones.
---
 esp_idf_size/deps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/deps.py b/esp_idf_size/deps.py
index 5bda1f6..cfa05a2 100644
--- a/esp_idf_size/deps.py
+++ b/esp_idf_size/deps.py
@@ -128,6 +128,10 @@ def get_archives_dependencies(
 
     assert crt is not None  # help mypy
 
+    if args['unify']:
+        # Archives in the unified memory map are identified by their abbreviated names.
+        crt = {sym: [(os.path.basename(arch), obj) for arch, obj in refs] for sym, refs in crt.items()}
+
     archives = memorymap.get_archives_summary(memmap, args)
 
     crt = _filter_crt(crt, archives, elf)
-- 
2.43.0


From 889e8be57692defd6863d79b66fca1b06d7ff116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:10 +0000
Subject: [PATCH 32/43] fix: do not interpret names as markup in JSON, raw and
 DOT formats

Names containing square brackets were mangled or the run ended with a traceback. Also
quote double quotes and backslashes in the DOT format.
---
 esp_idf_size/format_dot.py  | 15 ++++++++++-----
 esp_idf_size/format_json.py | 10 +++++-----
 esp_idf_size/format_raw.py  |  4 ++--
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/esp_idf_size/format_dot.py b/esp_idf_size/format_dot.py
index 4beb792..6343414 100644
--- a/esp_idf_size/format_dot.py
+++ b/esp_idf_size/format_dot.py
@@ -18,13 +18,18 @@ def show_archives_dependencies(
 
     lines += ['strict digraph {']
 
+    def quote(string: str) -> str:
+        string = string.replace('\\', '\\\\').replace('"', r'\"')
+        return f'"{string}"'
+
     def add_node(name: str, name_abbrev: str, size: int) -> None:
         if name in seen:
             return
         shape = 'box' if name in arch_deps else 'ellipse'
         color = 'darkorange3' if name in arch_deps else 'azure'
         # Archive not previously seen, so add a node for it.
-        lines.append(rf'"{name}" \[shape={shape}, label="{name_abbrev} ({size})", style=filled, fillcolor="{color}"]')
+        label = quote(f'{name_abbrev} ({size})')
+        lines.append(f'{quote(name)} [shape={shape}, label={label}, style=filled, fillcolor="{color}"]')
         seen.append(name)
 
     for arch_name, arch_info in arch_deps.items():
@@ -36,17 +41,17 @@ def show_archives_dependencies(
             add_node(arch_dep_name, arch_dep_name_abbrev, arch_dep_info['size'])
 
             if args['dep_reverse']:
-                line = f'"{arch_dep_name}" -> "{arch_name}"'
+                line = f'{quote(arch_dep_name)} -> {quote(arch_name)}'
             else:
-                line = f'"{arch_name}" -> "{arch_dep_name}"'
+                line = f'{quote(arch_name)} -> {quote(arch_dep_name)}'
             if args['dep_symbols']:
                 syms_str = '\n'.join(arch_dep_info['symbols'])
-                line += rf' \[label="{syms_str}"]'
+                line += f' [label={quote(syms_str)}]'
             lines += [line]
 
     lines += ['}']
 
-    log.print('\n'.join(lines))
+    log.print('\n'.join(lines), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index 502fafd..0d19f07 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -36,32 +36,32 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         parts = memorymap.sort_dict_by_key(parts, sort_key, args['sort_reverse'])
         mem_type['parts'] = {name: {'size': part['size']} for name, part in parts.items()}
 
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_object_files(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_object_files_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_archives_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_symbols(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_symbols_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives_dependencies(
     memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]
 ) -> None:
     arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-    log.print(json.dumps(arch_deps, indent=4))
+    log.print(json.dumps(arch_deps, indent=4), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_raw.py b/esp_idf_size/format_raw.py
index b77f5f7..4df9f6e 100644
--- a/esp_idf_size/format_raw.py
+++ b/esp_idf_size/format_raw.py
@@ -11,6 +11,6 @@ from .elf import Elf
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
     if args['archive_dependencies']:
         arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-        log.print(json.dumps(arch_deps, indent=4))
+        log.print(json.dumps(arch_deps, indent=4), markup=False)
     else:
-        log.print(json.dumps(memmap, indent=4))
+        log.print(json.dumps(memmap, indent=4), markup=False)
-- 
2.43.0


From c2d81b50e566255cb422fd5ba7cf4afcef40917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:10 +0000
Subject: [PATCH 33/43] fix: do not interpret names as markup in table, CSV and
 tree formats

Names containing square brackets were mangled or the run ended with a traceback. Also
quote double quotes in the CSV format.
---
 esp_idf_size/format_csv.py   | 13 +++++++-----
 esp_idf_size/format_table.py | 39 ++++++++++++++++++++----------------
 esp_idf_size/format_tree.py  | 25 ++++++++++++++---------
 3 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/esp_idf_size/format_csv.py b/esp_idf_size/format_csv.py
index c9e1cbf..2baeb79 100644
--- a/esp_idf_size/format_csv.py
+++ b/esp_idf_size/format_csv.py
@@ -4,6 +4,7 @@
 from typing import Any, Dict, Optional
 
 from rich.table import Table
+from rich.text import Text
 
 from . import format_table, log, mapfile
 from .elf import Elf
@@ -17,13 +18,15 @@ def show_table(table: Table) -> None:
 
     # Rich Table stores cells in columns so transform it to rows.
     for x, col in enumerate(table.columns):
-        matrix[0][x] = f'"{col.header}"'
-        for y, cell in enumerate(col.cells, start=1):
-            cell = cell.strip()
-            matrix[y][x] = f'"{cell}"'
+        for y, cell in enumerate([col.header, *col.cells]):
+            # Text is used for names, which must not be interpreted as markup, in contrast to the
+            # column names and colored sizes.
+            plain = cell.plain if isinstance(cell, Text) else Text.from_markup(cell).plain
+            plain = plain.strip().replace('"', '""')
+            matrix[y][x] = f'"{plain}"'
 
     for row in matrix:
-        log.print(','.join(row))
+        log.print(','.join(row), markup=False)
 
 
 def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 654d81a..57bab49 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -4,7 +4,6 @@
 from collections import namedtuple
 from typing import Any, Dict, List, Optional, Union
 
-from rich.markup import escape
 from rich.table import Table
 from rich.text import Text
 
@@ -15,8 +14,8 @@ from .elf import Elf
 def show_diff_info(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     if not args['diff']:
         return
-    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(memmap['project_path']))
-    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(memmap['project_path_diff']))
+    log.eprint(Text.assemble(('CURRENT', 'bold'), f'   project file: "{memmap["project_path"]}"'))
+    log.eprint(Text.assemble(('REFERENCE', 'bold'), f' project file: "{memmap["project_path_diff"]}"'))
     log.eprint(
         'Difference is counted as [bold]CURRENT - REFERENCE[/], i.e. a positive '
         r'number means that [bold]CURRENT[/] is larger.'
@@ -119,7 +118,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{escape(args["sort"])}" not found')
+            log.die(f'Column "{args["sort"]}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
@@ -166,7 +165,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
 
             if mem_type_info['size']:
                 table.add_row(
-                    f'   {name}',
+                    Text(f'   {name}'),
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     color_diff(round(section_info['pct'], 2), round(section_info['pct_diff'], 2), args['diff']),
                     '',
@@ -175,7 +174,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 )
             else:
                 table.add_row(
-                    f'   {name}',
+                    Text(f'   {name}'),
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     '',
                     '',
@@ -186,7 +185,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     return table
 
 
-def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any]) -> List[List[str]]:
+def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any]) -> List[List[Union[str, Text]]]:
     # Helper for get_*_table functions. It converts json summary into
     # table and sorts it.
 
@@ -199,7 +198,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
     Row = namedtuple('Row', ['name', 'columns'])
     columns: List[Column] = []
     rows: List[Row] = []
-    rows_final: List[List[str]] = []
+    rows_final: List[List[Union[str, Text]]] = []
 
     for entry_name, entry_info in summary.items():
         columns = []
@@ -227,7 +226,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
         args['sort'] = int(args['sort'])
     except ValueError:
         for idx, column in enumerate(table.columns):
-            if column.header == args['sort']:
+            if str(column.header) == args['sort']:
                 args['sort'] = idx
                 break
         else:
@@ -255,7 +254,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
     # Return only simple list of rows, where each row is a list
     # of columns to be printed in table.
     for row in rows:
-        cols = [row.name] + [col.info for col in row.columns]
+        cols = [Text(row.name)] + [col.info for col in row.columns]
         rows_final.append(cols)
 
     return rows_final
@@ -274,7 +273,7 @@ def get_object_files_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Tabl
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(object_files_summary, table, args)
@@ -297,7 +296,7 @@ def get_archives_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(archives_summary, table, args)
@@ -311,7 +310,8 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     symbols_summary = memorymap.get_symbols_summary(memmap, args)
     symbols_summary = memorymap.get_summary_filtered(symbols_summary, args)
 
-    table = Table(title=f'Symbols within archive: {args["archive_details"]} (Not all symbols may be reported)')
+    title = f'Symbols within archive: {args["archive_details"]} (Not all symbols may be reported)'
+    table = Table(title=Text(title, style='table.title'))
     table.add_column('Symbol', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
 
@@ -320,7 +320,7 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(symbols_summary, table, args)
@@ -357,12 +357,17 @@ def get_archives_dependencies_table(
             arch_dep_name, arch_dep_info = arch_dep
             arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
             if cnt == 1:
-                row = [arch_name_abbrev, str(arch_info['size']), arch_dep_name_abbrev, str(arch_dep_info['size'])]
+                row = [
+                    Text(arch_name_abbrev),
+                    str(arch_info['size']),
+                    Text(arch_dep_name_abbrev),
+                    str(arch_dep_info['size']),
+                ]
             else:
-                row = ['', '', arch_dep_name_abbrev, str(arch_dep_info['size'])]
+                row = ['', '', Text(arch_dep_name_abbrev), str(arch_dep_info['size'])]
 
             if args['dep_symbols']:
-                row += ['\n'.join(arch_dep_info['symbols'])]
+                row += [Text('\n'.join(arch_dep_info['symbols']))]
             if cnt == len(arch_info['archives']):
                 table.add_row(*row, end_section=True)
             else:
diff --git a/esp_idf_size/format_tree.py b/esp_idf_size/format_tree.py
index 62de334..c4f32ea 100644
--- a/esp_idf_size/format_tree.py
+++ b/esp_idf_size/format_tree.py
@@ -3,6 +3,7 @@
 
 from typing import Any, Dict, Optional
 
+from rich.text import Text
 from rich.tree import Tree
 
 from . import deps, log, mapfile, memorymap
@@ -10,6 +11,11 @@ from .elf import Elf
 from .format_table import color_diff, color_size
 
 
+def get_label(name: str, info: str) -> Text:
+    # The name must not be interpreted as markup, in contrast to the info with possibly colored sizes.
+    return Text(f'{name} ') + Text.from_markup(info)
+
+
 def show_memmap(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
 
     memorymap.trim(memmap, args)
@@ -20,29 +26,30 @@ def show_memmap(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         used = color_diff(mem_type_info['used'], mem_type_info['used_diff'], args['diff'])
         if mem_type_info['size']:
             size = color_size(mem_type_info['size'], mem_type_info['size_diff'], args['diff'])
-            mem_type_tree = tree.add(f'{mem_type_name} {used} / {size}', style='dark_orange', guide_style='dark_orange')
+            label = get_label(mem_type_name, f'{used} / {size}')
         else:
-            mem_type_tree = tree.add(f'{mem_type_name} {used}', style='dark_orange', guide_style='dark_orange')
+            label = get_label(mem_type_name, used)
+        mem_type_tree = tree.add(label, style='dark_orange', guide_style='dark_orange')
 
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
             size = color_diff(section_info['size'], section_info['size_diff'], args['diff'])
-            section_tree = mem_type_tree.add(f'{name} {size}', style='bright_blue', guide_style='bright_blue')
+            section_tree = mem_type_tree.add(get_label(name, size), style='bright_blue', guide_style='bright_blue')
 
             for archive_name, archive_info in section_info['archives'].items():
                 name = archive_info['abbrev_name'] if args['abbrev'] else archive_name
                 size = color_diff(archive_info['size'], archive_info['size_diff'], args['diff'])
-                archive_tree = section_tree.add(f'{name} {size}', style='green', guide_style='green')
+                archive_tree = section_tree.add(get_label(name, size), style='green', guide_style='green')
 
                 for object_file_name, object_file_info in archive_info['object_files'].items():
                     name = object_file_info['abbrev_name'] if args['abbrev'] else object_file_name
                     size = color_diff(object_file_info['size'], object_file_info['size_diff'], args['diff'])
-                    symbol_tree = archive_tree.add(f'{name} {size}', style='default', guide_style='default')
+                    symbol_tree = archive_tree.add(get_label(name, size), style='default', guide_style='default')
 
                     for symbol_name, symbol_info in object_file_info['symbols'].items():
                         name = symbol_name
                         size = color_diff(symbol_info['size'], symbol_info['size_diff'], args['diff'])
-                        symbol_tree.add(f'{name} {size}', style='default', guide_style='default')
+                        symbol_tree.add(get_label(name, size), style='default', guide_style='default')
 
     log.print(tree)
 
@@ -61,18 +68,18 @@ def show_archives_dependencies(
     for arch_name, arch_info in arch_deps.items():
         arch_name_abbrev = arch_info['abbrev_name'] if args['abbrev'] else arch_name
         arch_size = arch_info['size']
-        arch_tree = tree.add(f'{arch_name_abbrev} {arch_size}', style='dark_orange', guide_style='dark_orange')
+        arch_tree = tree.add(Text(f'{arch_name_abbrev} {arch_size}'), style='dark_orange', guide_style='dark_orange')
 
         for arch_dep_name, arch_dep_info in arch_info['archives'].items():
             arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
             arch_dep_size = arch_dep_info['size']
             dep_tree = arch_tree.add(
-                f'{arch_dep_name_abbrev} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
+                Text(f'{arch_dep_name_abbrev} {arch_dep_size}'), style='bright_blue', guide_style='bright_blue'
             )
 
             if args['dep_symbols']:
                 for sym in arch_dep_info['symbols']:
-                    dep_tree.add(sym, style='default', guide_style='default')
+                    dep_tree.add(Text(sym), style='default', guide_style='default')
 
     log.print(tree)
 
-- 
2.43.0


From 0f90e5fd25fff77484506fe21a411a4d2c41b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:10 +0000
Subject: [PATCH 34/43] fix: do not interpret file and symbol names in messages
 as markup

Messages with square brackets were mangled or the run ended with a traceback.
---
 esp_idf_size/log.py       | 16 +++++++++++-----
 esp_idf_size/memorymap.py | 11 +++++++----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/log.py b/esp_idf_size/log.py
index 378872d..87fef79 100644
--- a/esp_idf_size/log.py
+++ b/esp_idf_size/log.py
@@ -6,25 +6,31 @@
 __all__ = ['err', 'warn', 'die', 'debug', 'eprint', 'print']
 
 import sys
-from typing import Any, Optional
+from typing import Any, List, Optional, Tuple
 
 from esp_pylib.logger import log
+from rich.markup import escape
+
+
+def _escape(args: Tuple[Any, ...]) -> List[Any]:
+    # Messages contain file names, symbols etc., which must not be interpreted as markup.
+    return [escape(arg) if isinstance(arg, str) else arg for arg in args]
 
 
 def err(*args: Any, suggestion: Optional[str] = None) -> None:
-    log.err(*args, suggestion=suggestion)
+    log.err(*_escape(args), suggestion=suggestion)
 
 
 def warn(*args: Any, suggestion: Optional[str] = None) -> None:
-    log.warn(*args, suggestion=suggestion)
+    log.warn(*_escape(args), suggestion=suggestion)
 
 
 def die(*args: Any, exit_code: int = 1, suggestion: Optional[str] = None) -> None:
-    log.die(*args, exit_code=exit_code, suggestion=suggestion)
+    log.die(*_escape(args), exit_code=exit_code, suggestion=suggestion)
 
 
 def debug(*args: Any) -> None:
-    log.debug(*args)
+    log.debug(*_escape(args))
 
 
 def eprint(*args: Any, **kwargs: Any) -> None:
diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index e2aa65b..a32ae91 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -60,6 +60,7 @@ from typing import Any, Dict, Generator, List, Optional
 
 import yaml
 from esp_pylib.errors import FatalError
+from rich.text import Text
 
 from . import log, mapfile
 from .elf import SHF_ALLOC, SHT_PROGBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
@@ -1612,10 +1613,12 @@ def _get_mem_type_map(
                 # is not big enough and the linker fails. In this case try to map the output section into the
                 # first memory region/type preceding the output section.
                 log.warn(
-                    f'[red]{mem_type_alias} overflow detected![/red]: '
-                    f'output section or its part {map_section["name"]}(addr: {map_section["address"]}, '
-                    f'size: {map_section["size"]}) does not fit into any memory region and '
-                    f'will be assigned to the preceding {prev_mem_reg["name"]} memory region'
+                    Text.assemble(
+                        (f'{mem_type_alias} overflow detected!', 'red'),
+                        f': output section or its part {map_section["name"]}(addr: {map_section["address"]}, '
+                        f'size: {map_section["size"]}) does not fit into any memory region and '
+                        f'will be assigned to the preceding {prev_mem_reg["name"]} memory region',
+                    )
                 )
 
                 # During overflow the output section could be split according to memory region, which
-- 
2.43.0


From cee2d7e47ab8e5ec968e75f327660ba322983b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:26 +0000
Subject: [PATCH 35/43] fix: keep columns of archive, file and symbol tables if
 there are no rows

The columns were derived from the first row, so with no row left after
filtering, sorting by a column name ended with "Column not found" and
column numbers out of range were accepted.
---
 esp_idf_size/format_table.py | 46 ++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 57bab49..47943da 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -243,14 +243,16 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
         else:
             return int(row.columns[sort_key_idx].size)
 
-    try:
-        rows = [row for row in sorted(rows, key=sort_key, reverse=args['sort_reverse'])]
-    except IndexError:
+    # The first column contains row description.
+    columns_cnt = len(table.columns) - 1
+    if abs(args['sort']) > columns_cnt:
         log.die(
             f'Column index {args["sort"]} is out of range.',
-            f'Please use 1..{len(columns) - 1} or {-len(columns)}..-1 range.',
+            f'Please use 1..{columns_cnt} or {-columns_cnt}..-1 range.',
         )
 
+    rows = [row for row in sorted(rows, key=sort_key, reverse=args['sort_reverse'])]
+
     # Return only simple list of rows, where each row is a list
     # of columns to be printed in table.
     for row in rows:
@@ -268,13 +270,11 @@ def get_object_files_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Tabl
     table.add_column('Object File', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
 
-    for object_file_name, object_file_info in object_files_summary.items():
-        for mem_type_name, mem_type_info in object_file_info['memory_types'].items():
-            table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
-            for section_name, section_info in mem_type_info['sections'].items():
-                name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
-        break
+    for mem_type_name, mem_type_info in memmap['memory_types'].items():
+        table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
+        for section_name, section_info in mem_type_info['sections'].items():
+            name = section_info['abbrev_name'] if args['abbrev'] else section_name
+            table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
 
     sizes_sorted = _get_table_sorted(object_files_summary, table, args)
     for sizes in sizes_sorted:
@@ -291,13 +291,11 @@ def get_archives_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     table.add_column('Archive File', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
 
-    for archive_name, archive_info in archives_summary.items():
-        for mem_type_name, mem_type_info in archive_info['memory_types'].items():
-            table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
-            for section_name, section_info in mem_type_info['sections'].items():
-                name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
-        break
+    for mem_type_name, mem_type_info in memmap['memory_types'].items():
+        table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
+        for section_name, section_info in mem_type_info['sections'].items():
+            name = section_info['abbrev_name'] if args['abbrev'] else section_name
+            table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
 
     sizes_sorted = _get_table_sorted(archives_summary, table, args)
     for sizes in sizes_sorted:
@@ -315,13 +313,11 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     table.add_column('Symbol', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
 
-    for symbol_name, symbol_info in symbols_summary.items():
-        for mem_type_name, mem_type_info in symbol_info['memory_types'].items():
-            table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
-            for section_name, section_info in mem_type_info['sections'].items():
-                name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
-        break
+    for mem_type_name, mem_type_info in memmap['memory_types'].items():
+        table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
+        for section_name, section_info in mem_type_info['sections'].items():
+            name = section_info['abbrev_name'] if args['abbrev'] else section_name
+            table.add_column(Text(name), overflow='fold', justify='right', style='bright_blue')
 
     sizes_sorted = _get_table_sorted(symbols_summary, table, args)
     for sizes in sizes_sorted:
-- 
2.43.0


From 336471aa043213259ee25fcd650478d7efa6ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:48 +0000
Subject: [PATCH 36/43] fix: do not count a memory region listed twice in a
 dual mapped memory type

---
 esp_idf_size/memorymap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index a32ae91..298341b 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1544,9 +1544,10 @@ def _get_mem_type_map(
                 mem_type_offset = abs(mem_type_info['primary_address'] - mem_type_info['secondary_address'])
             for mem_type_reg in memory_types_regions[mem_type_alias]:
                 mem_reg_offset = abs(mem_type_reg['origin'] - mem_reg['origin'])
-                if mem_type_offset == mem_reg_offset and mem_type_reg['length'] == mem_reg['length']:
+                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length']:
                     # The current memory region has the same offset to the already added memory region as
-                    # offset in memory type(primary and secondary address offset). The length also matches, so this
+                    # offset in memory type(primary and secondary address offset) or it's at the same address,
+                    # e.g. rtc_iram_seg and rtc_data_seg on esp32s3. The length also matches, so this
                     # memory region is mapped into the same memory as region that was already added to the
                     # memory type. Skip it, so we don't account the size of the memory region twice into the total
                     # memory type size.
-- 
2.43.0


From c0677a91c63b7dc3657df18e16c29c9dbe15e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:04 +0000
Subject: [PATCH 37/43] fix: use the address size of the unit for DW_OP_addr

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 531a24a..42a30aa 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1816,7 +1816,7 @@ class Dwarf_CU:
                 offset += 1
 
                 if b == DW_OP_addr:
-                    res, offset = self._elf.get_address(value, offset)
+                    res, offset = self.get_address(value, offset)
                     stack.append(res)
                 else:
                     # Not implemented
-- 
2.43.0


From bdf59f695f9572e009fa650b726c00331cdf6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:04 +0000
Subject: [PATCH 38/43] fix: do not warn about an inconsistent map if the first
 input sections are empty

The validation started at the address of the first listed input section, even if it is empty, superseded by
padding or placed outside of its output section, and reported an error in the parser for the section following it.
---
 esp_idf_size/mapfile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index bfb839a..0682b79 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -412,13 +412,15 @@ class MapFile:
             if not section['input_sections']:
                 # Output section doesn't have any input sections, so it can be skipped
                 continue
-            # Start at the first input section address. There might be alignment(fill) between
+            # Start at the first non-empty input section address. There might be alignment(fill) between
             # output sections address and first input section address, which is not accounted.
-            start_addr = section['input_sections'][0]['address']
+            start_addr = None
             offset = 0
             for input_section in section['input_sections']:
                 if not input_section['size']:
                     continue
+                if start_addr is None:
+                    start_addr = input_section['address']
                 if start_addr + offset != input_section['address']:
                     msg = (
                         f'Input section {input_section["name"]} at {hex(input_section["address"])} '
-- 
2.43.0


From d917f84a4d0cdf00486f689c0669520048693a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:14 +0000
Subject: [PATCH 39/43] fix: read project files using UTF-8 encoding

JSON files generated by the build system are UTF-8 encoded regardless of the locale, the
same way as the link map file. With another locale encoding they were ignored or misread.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 298341b..6597450 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1095,7 +1095,7 @@ def _abbrev(section_name: str) -> str:
 def _load_json_file(fn: str) -> Optional[Dict[str, Any]]:
     data = None
     try:
-        with open(fn) as f:
+        with open(fn, encoding='utf-8') as f:
             data = json.load(f)
     except (OSError, ValueError, RecursionError) as e:
         log.debug(f'{fn} is not available: {e}')
-- 
2.43.0


From e692e57820e7ac16cf9d9f1a7178406887379221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:25 +0000
Subject: [PATCH 40/43] fix: do not abort a report because of names stdout
 cannot represent

A name with characters which are not available in the encoding of stdout ended the report
with a traceback. Escape such characters, as it is done for the output file.
---
 esp_idf_size/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 820b780..8740ef7 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -81,6 +81,10 @@ def _run(args: Dict[str, Any]) -> None:
     try:
         if ofile is not None:
             args['force_terminal'] = False
+        elif isinstance(sys.stdout, io.TextIOWrapper):
+            # Same as for the output file, a name which cannot be represented in
+            # the encoding of stdout doesn't abort the whole report.
+            sys.stdout.reconfigure(errors='backslashreplace')
 
         esp_log.set_verbosity(
             Verbosity.SILENT if args['quiet'] else (Verbosity.VERBOSE if args['debug'] else Verbosity.NORMAL)
-- 
2.43.0


From ffc1179cc4bcf3f77262a0ea402edd2141880db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:08 +0000
Subject: [PATCH 41/43] fix: accept load address of output sections in the map
 file

LD appends "load address 0x..." to an output section if it differs from its
address. Such lines were rejected, or the size of the section was lost if it
was on a separate line.
---
 esp_idf_size/mapfile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 0682b79..131a9cc 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -137,6 +137,13 @@ class MapFile:
         # self.line_idx += ln
         return target
 
+    def _strip_load_address(self, split: List[str]) -> List[str]:
+        # LD reports the load address of an output section if it differs from its address
+        # .data           0x0000000000001000       0x10 load address 0x0000000000008000
+        if len(split) > 3 and split[-3:-1] == ['load', 'address']:
+            return split[:-3]
+        return split
+
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
         # The path may contain parentheses too, so look for the object file name at the very end.
         idx = s.rfind('(') if s.endswith(')') else -1
@@ -279,7 +286,7 @@ class MapFile:
                     output_section['address'] = 0
                     output_section['size'] = 0
 
-                    split = line.split()
+                    split = self._strip_load_address(line.split())
                     if len(split) == 2 and any(s.startswith('0x') for s in split):
                         # Output section has address and length on the second line.
                         output_section['address'] = self._get_int(split[0], line, ln)
@@ -378,7 +385,7 @@ class MapFile:
                     'input_sections': [],
                 }
 
-                split = line.split()
+                split = self._strip_load_address(line.split())
                 if len(split) == 1:
                     output_section['name'] = split[0]
                 elif len(split) == 3:
-- 
2.43.0


From 26af5e6685718a5d1adcce5ba4af73954335c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:01 +0000
Subject: [PATCH 42/43] fix: account sections whose name does not start with a
 dot

The linker keeps the names of the sections as they are in the object files, for
example set with the section attribute, and they do not have to start with a dot.
Such input and output sections were ignored.
---
 esp_idf_size/mapfile.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 131a9cc..935d4cc 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -16,6 +16,10 @@ class MapFileException(FatalError):
 class MapFile:
     # Explicit bytes of data in output section
     EXPLICIT_BYTES = ['BYTE', 'SHORT', 'LONG', 'QUAD', 'SQUAD']
+    # Address and size of output section, optionally followed by its load address
+    RE_OUTPUT_SECTION = r'0x[0-9a-f]+\s+0x[0-9a-f]+(\s+load address 0x[0-9a-f]+)?'
+    # Address, size and archive(object_file) of input section
+    RE_INPUT_SECTION = r'0x[0-9a-f]+\s+0x[0-9a-f]+\s+(?!(' + '|'.join(EXPLICIT_BYTES) + r')\s+0x)\S.*'
 
     def __init__(self, fn: str) -> None:
         self.fn = fn
@@ -144,6 +148,14 @@ class MapFile:
             return split[:-3]
         return split
 
+    def _is_section(self, regex: str, line: str, ln: int) -> bool:
+        # Section names do not have to start with a dot. Recognize such section by its address and size, which
+        # LD puts on the following line if the section name is too long.
+        if re.match(r'(?!\*|0x)\S+$', line):
+            next_line = self.lines[ln + 1].strip() if ln + 1 < len(self.lines) else ''
+            return bool(re.match(regex + '$', next_line))
+        return bool(re.match(r'(?!\*|0x)\S+\s+' + regex + '$', line))
+
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
         # The path may contain parentheses too, so look for the object file name at the very end.
         idx = s.rfind('(') if s.endswith(')') else -1
@@ -292,7 +304,7 @@ class MapFile:
                         output_section['address'] = self._get_int(split[0], line, ln)
                         output_section['size'] = self._get_int(split[1], line, ln)
 
-                elif line.startswith(('.', 'COMMON')):
+                elif line.startswith(('.', 'COMMON')) or self._is_section(self.RE_INPUT_SECTION, line, ln):
                     # New input section
                     in_input_section = True
                     if input_section:
@@ -362,7 +374,7 @@ class MapFile:
                         if len(split) == 4 and split[2] in self.EXPLICIT_BYTES:
                             input_section['fill'] += self._get_int(split[1], line, ln)
 
-            elif line.startswith('.'):
+            elif line.startswith('.') or self._is_section(self.RE_OUTPUT_SECTION, line, ln):
                 # Detected new output section. There are two cases
                 # 1. Section name, address and length on a single line
                 #
-- 
2.43.0


From e9c6fc68f582311d3ecd40d612f9e43024820a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:56 +0000
Subject: [PATCH 43/43] fix: evaluate location blocks of DWARF 2 and 3

Location expressions are stored in blocks before DWARF 4, so with such
debug information no variable was attributed to its source file.
---
 esp_idf_size/elf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 42a30aa..409a4cc 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1800,7 +1800,12 @@ class Dwarf_CU:
             assert isinstance(value, bytes)
             evaluated = value.decode()
 
-        elif form == DW_FORM_exprloc:
+        elif form == DW_FORM_exprloc or (
+            # Location expressions are stored in blocks before DWARF 4.
+            self.version < 4
+            and attr['attr'] == DW_AT_location
+            and form in (DW_FORM_block1, DW_FORM_block2, DW_FORM_block4, DW_FORM_block)
+        ):
             # Dwarf5: 2.5 DWARF Expressions
             # This handles only DW_OP_addr, which is probably the only one we need.
             # Fully implement DWARF expressions is not possible, because some
-- 
2.43.0

