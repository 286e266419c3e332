"""Conformance of the map model with the real linker.

The same model image is (1) rendered by model.render and (2) really linked with the installed GNU as/ar/ld.
The output section block of both maps must agree token by token, and the tool's result on the real map (with and
without the real ELF) must equal the oracle's.
"""
import itertools
import os
import shutil
import subprocess

from . import model, sut
from .checks import c01
from .core import Prune, Space, Violation

KINDS = ('plain', 'long', 'same_obj', 'exe', 'spaces', 'common', 'zero', 'fill', 'fillpat', 'long_data', 'byte_data', 'dotless',
         'dotless_long')
PAT = {'plain': '*liba.a:a.c.obj(.text.f)', 'long': '*liba.a:b.c.obj(.text.a_rather_long_function_name)',
       'same_obj': '*liba.a:a.c.obj(.literal.f)', 'exe': '*main.c.obj(.text)', 'spaces': '*libb.a:x?y.o(.text.g)',
       'common': '*liba.a:a.c.obj(COMMON)', 'dotless': '*liba.a:a.c.obj(my_sec)',
       'dotless_long': '*libb.a:x?y.o(my_rather_long_section_name)', 'zero': '*liba.a:zero.c.obj(.text.empty)'}


def available():
    return all(shutil.which(t) for t in ('as', 'ld', 'ar'))


def run(*cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError(' '.join(cmd) + '\n' + p.stdout.decode())


def block(text, name):
    """Token list of the lines of an output section, without script pattern and symbol lines."""
    lines = text.split('Linker script and memory map', 1)[1].splitlines()
    i = next(k for k, ln in enumerate(lines) if ln.startswith(name))
    toks = []
    for ln in lines[i:]:
        if not ln.strip():
            break
        s = ln.split()
        if s[0].startswith('*') and s[0] != '*fill*':
            continue
        if len(s) > 2 and s[2] == '.' or 'ALIGN' in ln or (len(s) >= 2 and s[1] == '.'):
            continue
        if s[0].startswith('FILL') or s[0] == 'FILL':
            continue
        if len(s) == 2 and s[0].startswith('0x') and not s[1].startswith('0x'):
            continue
        if any(k in s for k in ('LONG', 'BYTE')):
            s = s[:3]
        toks += s
    return toks


def link(d, kinds, name='.flash.text', load=None):
    """Assemble and link; returns map text and paths."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'esp-idf/a'))
    os.makedirs(os.path.join(d, 'C:/Program Files (x86)/idf b'))
    os.makedirs(os.path.join(d, 'CMakeFiles/app.elf.dir'))
    objs = {}

    def sec(obj, name, size, comm=False):
        o = objs.setdefault(obj, [])
        if comm:
            o.append(f'.comm sym_common,{size},1')
        else:
            o.append(f'.section {name},"ax",@progbits')
            if size:
                o.append(f'.space {size},1')
    script = []
    for n, k in enumerate(kinds):
        u = 0x10 << (2 * n)
        if k == 'plain':
            sec('a.c.obj', '.text.f', u + 1)
        elif k == 'long':
            sec('b.c.obj', '.text.a_rather_long_function_name', u + 2)
        elif k == 'same_obj':
            sec('a.c.obj', '.literal.f', u + 3)
        elif k == 'exe':
            sec('main.c.obj', '.text', u + 4)
        elif k == 'spaces':
            sec('x y.o', '.text.g', u + 5)
        elif k == 'common':
            sec('a.c.obj', None, u + 6, True)
        elif k == 'dotless':
            sec('a.c.obj', 'my_sec', u + 9)
        elif k == 'dotless_long':
            sec('x y.o', 'my_rather_long_section_name', u + 10)
        elif k == 'zero':
            sec('zero.c.obj', '.text.empty', 0)
        if k in PAT:
            script.append(f'    {PAT[k]}')
        elif k == 'fill':
            script.append(f'    . = . + {3 + n};')
        elif k == 'fillpat':
            script.append(f'    FILL(0x9090); . = . + {2 + n};')
        elif k == 'long_data':
            script.append('    LONG(0x12345678)')
        elif k == 'byte_data':
            script.append('    BYTE(0x12)')
    for o, src in objs.items():
        s = os.path.join(d, 's.s')
        with open(s, 'w') as f:
            f.write('\n'.join(src) + '\n')
        run('as', '--32', '-o', os.path.join(d, o), s)
    inputs = []
    arch_a = [os.path.join(d, o) for o in ('a.c.obj', 'b.c.obj', 'zero.c.obj') if o in objs]
    cwd = os.getcwd()
    os.chdir(d)
    try:
        if arch_a:
            run('ar', 'qc', 'esp-idf/a/liba.a', *arch_a)
            inputs.append('esp-idf/a/liba.a')
        if 'x y.o' in objs:
            run('ar', 'qc', 'C:/Program Files (x86)/idf b/libb.a', 'x y.o')
            inputs.append('C:/Program Files (x86)/idf b/libb.a')
        if 'main.c.obj' in objs:
            shutil.move('main.c.obj', 'CMakeFiles/app.elf.dir/main.c.obj')
            inputs.append('CMakeFiles/app.elf.dir/main.c.obj')
        with open('s.ld', 'w') as f:
            f.write('MEMORY {\n' + ''.join(f'  {n} ({a}) : ORIGIN = {o:#x}, LENGTH = {ln:#x}\n'
                                           for n, o, ln, a in c01.REG)
                    + '}\nIDF_TARGET_ESP32 = 0;\nSECTIONS {\n  ' + name + ' : ' + (f'AT({load:#x}) ' if load is not None else '') + '{\n' + '\n'.join(script)
                    + '\n  } > iram0_2_seg\n  /DISCARD/ : { *(*) }\n}\n')
        run('ld', '-m', 'elf_i386', '-T', 's.ld', '-Map', 'app.map', '--cref', '-o', 'app.elf', '-e', '0',
            '--whole-archive', *inputs)
        with open('app.map') as f:
            text = f.read()
    finally:
        os.chdir(cwd)
    return text


def check(state):
    kinds, name, load = state
    d = os.path.join(sut.WDIR, 'ld')
    text = link(d, kinds, name, load)
    img = model.Img('esp32', c01.REG, [c01.section(name, 0x400D0020, kinds)], wide=True)
    img.outs[0].load = load
    real, mine = block(text, name), block(model.render(img), name)
    # number formats differ (address width): compare numerically

    def norm(toks):
        return [int(t, 16) if t.startswith('0x') else t for t in toks]
    a, b = norm(real), norm(mine)
    # fill patterns are printed by ld only when set and stay set for later fills
    a = [t for t in a if t != 9090 and t != '9090']
    b = [t for t in b if t != 9090 and t != '9090']
    if a != b:
        raise RuntimeError(f'map model does not conform to ld: {a} != {b}\n{text}')
    exp, _ = model.oracle(img)
    try:
        got, _ = sut.get(os.path.join(d, 'app.map'))
    except Exception as e:
        raise Violation(f'real linker map rejected: {e!r}\n{text}')
    exp['target'] = 'esp32'
    errs = model.compare_maps(got, exp)
    if errs:
        raise Violation('memory map of a really linked image is wrong:\n  ' + '\n  '.join(errs[:10]) + '\n' + text)
    return str(state)


def space(depth):
    def build(c):
        n = c.choose('lines', list(range(1, depth + 1)))
        left = list(KINDS)
        ks = []
        for i in range(n):
            k = c.choose(f'line{i}', left)
            left.remove(k)
            ks.append(k)
        if not any(k in ('plain', 'long', 'same_obj', 'exe', 'spaces', 'common', 'dotless', 'dotless_long') for k in ks):
            raise Prune()
        name = c.choose('output section', ('.flash.text', 'flash_text', 'a_long_dotless_output')) if n == 1 else '.flash.text'
        return tuple(ks), name, 0x8000 if n == 1 and c.flag('load address') else None
    return Space('real-ld', build, check, timeout=120,
                 bounds=f'all sequences of <={depth} distinct line kinds out of {len(KINDS)} (single lines: x output section names x load address), linked with GNU ld')
