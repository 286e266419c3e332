#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist (mc/checks/cNN.py)."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTES = {
    'C01': ('model_checking', 'explicit enumeration of linker map line sequences; every model trace replayed on the '
            'real parser and compared with an interval oracle; line grammar validated against GNU ld'),
    'C02': ('model_checking', 'exhaustive enumeration of layouts x option sets; sum invariants on every produced map'),
    'C03': ('model_checking', 'all chips x all short region sequences over the layout boundary points; replayed on '
            'the real code against a capacity oracle'),
    'C04': ('model_checking', 'all chips x all section placements over region/type boundary points; replayed on the '
            'real code against a placement oracle'),
    'C05': ('model_checking', 'all sets of section names x ELF section kinds; replayed on the real code'),
    'C06': ('model_checking', 'all bounded arrangements of symbols and input sections; replayed on the real code'),
    'C07': ('model_checking', 'all pairs of a bounded family of memory maps and projects; replayed on the real code'),
    'C08': ('model_checking', 'all bounded maps with colliding names and all unify/diff orders; replayed on the real '
            'code'),
    'C09': ('model_checking', 'all projects of a bounded family x formats x options; parsed reports vs. reference'),
    'C10': ('model_checking', 'all projects of a bounded family x reports x formats x options; parsed reports vs. '
            'reference'),
    'C11': ('model_checking', 'all sort columns x orders x reports on a bounded family; parsed reports vs. reference'),
    'C12': ('model_checking', 'all pattern subsets x reports on a bounded family; parsed reports vs. reference'),
    'C13': ('model_checking', 'all changed/unchanged/unused combinations on a bounded family; parsed reports vs. '
            'reference'),
    'C14': ('model_checking', 'all bounded cross reference tables x surviving symbols; graphs read back from every '
            'format vs. reference'),
    'C15': ('fault_enumeration', 'exhaustive fault injection at every I/O call, rendering step and line of a run'),
    'C16': ('fault_enumeration', 'exhaustive line/token mutations, truncations and JSON type confusions'),
    'C17': ('model_checking', 'all bounded histories of operations in one process vs. fresh process, hash seeds, '
            'working directories'),
    'C18': ('model_checking', 'all bounded arrangements of symbols, debug info and components; replayed on the real '
            'code'),
    'C19': ('model_checking', 'exhaustive class x order x version x form x boundary value matrix of generated ELF '
            'files'),
    'C20': ('model_checking', 'all combinations of project file states for both sides of a diff'),
    'C21': ('model_checking', 'all special names at every level x formats x reports; machine parse and verbatim '
            'comparison'),
}
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'mc', 'checks', i.lower() + '.py')):
        level, tech = NOTES[i]
        checks.append({
            'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json', 'technique': 'model checking: ' + tech, 'level': level,
            'level_note': 'Exhaustive within the bounds stated per space in the evidence file; beyond them nothing is '
                          'claimed. Every explored model execution is replayed against the working tree of /repo '
                          'through public entry points.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
