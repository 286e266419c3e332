"""Conformance of the cross-reference and symbol models with a real linker: small projects of three modules that refer to each other are
assembled, put in archives and linked by GNU ld; the dependency report and the symbols are compared with what is known of the modules."""
import json
import os
import shutil

from . import ldconf, sut
from .core import Space, Violation

PLACES = {'separate': ('esp-idf/a/liba.a', 'esp-idf/b/libb.a', 'x y/(z)/libc.a'), 'shared': ('esp-idf/a/liba.a', 'esp-idf/b/libb.a', 'esp-idf/a/liba.a'),
          'direct': ('esp-idf/a/liba.a', None, 'esp-idf/b/libb.a'), 'same name': ('esp-idf/a/liba.a', 'other/liba.a', None)}
STYLES = {'short': 's{}', 'long': 'a_rather_long_symbol_name_that_needs_a_line_of_its_own_in_the_table_{}', 'suffix': 's{}.part.0', 'similar': '{:a<3}_', 'dollar': '$s{}'}
KINDS = ('func', 'object', 'weak', 'common', 'notype', 'bss', 'big')
OBJ = {}


def module(i, kind, refs, style, weak_refs):
    name = [STYLES[style].format(k) for k in range(3)]
    me, size = name[i], (0x2000 if kind == 'big' else 0x20) + 4 * i
    used = [f'.long "{name[j]}"' for j in refs]
    src = [f'.weak "{name[j]}"' for j in refs if weak_refs]
    src += ['.section .text.keep,"ax",@progbits', f'.type keep{i},@function', f'keep{i}:', f'.space {0x40 + i},1', f'.size keep{i},{0x40 + i}']
    glob = '.weak' if kind == 'weak' else '.globl'
    if kind in ('common', 'bss'):
        if kind == 'common':
            src.append(f'.comm "{me}",{size},4')
        else:
            src += [f'.section ".bss.{me}","aw",@nobits', f'.globl "{me}"', f'.type "{me}",@object', f'"{me}":', f'.space {size}', f'.size "{me}",{size}']
        src += ['.section .text.refs,"ax",@progbits'] + used
    else:
        sec = '.data' if kind == 'object' else '.text'
        src += [f'.section "{sec}.{me}","{"aw" if kind == "object" else "ax"}",@progbits', f'{glob} "{me}"']
        if kind != 'notype':
            src.append(f'.type "{me}",@{"object" if kind == "object" else "function"}')
        src += [f'"{me}":'] + used + [f'.space {size - 4 * len(used)},1', f'.size "{me}",{size}']
    return '\n'.join(src) + '\n', size


def link(sc):
    edges, places, kinds, style, gc, weak_refs = sc
    d = os.path.join(sut.WDIR, 'cref')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    sizes, members, direct = [], {}, []
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for i in range(3):
            text, size = module(i, kinds[i], [j for j in range(3) if (i, j) in edges], style, weak_refs)
            sizes.append(size)
            if text not in OBJ:
                with open('s.s', 'w') as f:
                    f.write(text)
                ldconf.run('as', '--32', '-o', 'o.o', 's.s')
                with open('o.o', 'rb') as f:
                    OBJ[text] = f.read()
            with open(f'm{i}.c.obj', 'wb') as f:
                f.write(OBJ[text])
            place = PLACES[places][i]
            if place:
                members.setdefault(place, []).append(f'm{i}.c.obj')
            else:
                direct.append(f'm{i}.c.obj')
        for a, ms in members.items():
            os.makedirs(os.path.dirname(a), exist_ok=True)
            ldconf.run('ar', 'qc', a, *ms)
        with open('s.ld', 'w') as f:
            f.write('''MEMORY { iram0_2_seg (rx) : ORIGIN = 0x400D0020, LENGTH = 0x32FFE0
dram0_0_seg (rw) : ORIGIN = 0x3FFB0000, LENGTH = 0x2C200
}
IDF_TARGET_ESP32 = 0;
SECTIONS { .flash.text : { KEEP(*(.text.keep)) *(.text .text.*) } > iram0_2_seg
.dram0.data : { *(.data .data.*) } > dram0_0_seg
.dram0.bss (NOLOAD) : { *(.bss .bss.* COMMON) } > dram0_0_seg
/DISCARD/ : { *(*) } }
''')
        ldconf.run('ld', '-m', 'elf_i386', '-T', 's.ld', '-Map', 'app.map', '--cref', '-o', 'app.elf', '-e', STYLES[style].format(0),
                   *(['--gc-sections'] if gc else []), '--whole-archive', *members, *direct)
        with open('project_description.json', 'w') as f:
            json.dump({'app_elf': 'app.elf', 'target': 'esp32', 'build_dir': d}, f)
    finally:
        os.chdir(cwd)
    alive = {0, 1, 2}
    if gc:
        # a symbol survives if it is reached from the entry; references of data without code of their own are in an unused section
        alive, todo = {0}, [0]
        while todo:
            i = todo.pop()
            if kinds[i] in ('common', 'bss'):
                continue
            for j in range(3):
                if (i, j) in edges and j not in alive:
                    alive.add(j)
                    todo.append(j)
    return os.path.join(d, 'app.map'), sizes, alive


def check_deps(sc):
    edges, places, kinds, style, _gc, _weak = sc
    mp, _sizes, alive = link(sc)
    pl = [p or '(exe)' for p in PLACES[places]]
    got = {}
    for reverse in (False, True):
        r = sut.cli('--archive-dependencies', '--dep-symbols', '--no-abbrev', '--format', 'json2', *(['--dep-reverse'] if reverse else []), mp)
        if r.rc or r.exc:
            raise Violation(f'{sc}: {r}')
        want = {}
        for i, j in sorted(edges):
            if pl[i] != pl[j] and j in alive and kinds[j] != 'notype':
                a, b = (pl[j], pl[i]) if reverse else (pl[i], pl[j])
                want.setdefault(a, {}).setdefault(b, set()).add(STYLES[style].format(j))
        g = json.loads(r.out)
        got = {a: {b: set(x['symbols']) for b, x in e['archives'].items()} for a, e in g.items()}
        if got != want or any(len(x['symbols']) != len(set(x['symbols'])) for e in g.values() for x in e['archives'].values()):
            with open(mp) as f:
                t = f.read()
            raise Violation(f'{sc} reverse={reverse}: dependencies {got}, expected {want}\n' + t[t.index('Cross Reference Table'):])
    return repr(sorted((a, sorted((b, sorted(s)) for b, s in x.items())) for a, x in got.items()))


def check_symbols(sc):
    _edges, places, kinds, style, _gc, _weak = sc
    mp, sizes, alive = link(sc)
    m, err = sut.get(mp, load_symbols=True)
    if err:
        raise Violation(f'{sc}: {err}')
    got = {}
    for t, tv in m['memory_types'].items():
        for s in tv['sections'].values():
            for an, a in s['archives'].items():
                for on, o in a['object_files'].items():
                    if o['size'] != sum(x['size'] for x in o['symbols'].values()):
                        raise Violation(f'{sc}: symbols of {an}({on}) are {o}')
                    for sn, x in o['symbols'].items():
                        if x['size'] and not sn.startswith(('.', 'COMMON')):
                            got[t, an, on, sn] = x['size']
    want = {}
    for i in range(3):
        p, ob = PLACES[places][i] or '(exe)', f'm{i}.c.obj'
        want['Flash Code', p, ob, f'keep{i}()'] = 0x40 + i
        if i in alive and kinds[i] != 'notype':
            data = kinds[i] in ('object', 'common', 'bss')
            want['DRAM' if data else 'Flash Code', p, ob, STYLES[style].format(i) + ('' if data else '()')] = sizes[i]
    if got != want:
        with open(mp) as f:
            t = f.read()
        raise Violation(f'{sc}: symbols {got}, expected {want}\n' + t[t.index('Linker script and memory map'):])
    return repr(sorted(got.items()))


def space(check, budget, all_edges):
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]

    def build(c):
        edges = frozenset(p for p in pairs if c.flag(f'{p[0]} refers to {p[1]}', free=all_edges))
        return (edges, c.choose('places', tuple(PLACES), free=True), tuple(c.choose(f'kind {i}', KINDS) for i in range(3)), c.choose('names', tuple(STYLES)),
                c.flag('unused sections removed', free=True), c.flag('weak references'))
    return Space('linked', build, check, budget=budget, timeout=120, bounds=f'3 modules linked by GNU ld: {"all" if all_edges else f"<= {budget}"} references, '
                 f'4 placements, kinds of symbols, names, removal of unused sections (<= {budget} deviations)')
