"""C18: LTO attribution.  Model = the compiler placing symbols with and without debug information into input sections that
belong to no archive."""
import os

from .. import ccconf, elfgen, imgs, lto, model, proj, reports, sut
from ..core import Prune, Space, Violation

ASSUMPTIONS = ['symbols of archive-less input sections do not overlap each other (aliases share address and size)',
               'debug information uses the forms compilers emit for these attributes in DWARF 2 to 5 (exprloc, blocks, string, strp, '
               'line_strp, ref4, ref_addr)',
               'object entries without any byte may or may not be listed']

A = 'esp-idf/a/liba.a'
ODD = 'esp-idf/o/exe.lib'    # archives need not be called *.a
COMPS = {
    'plain': {'main': ('/p/main', 'esp-idf/main/libmain.a'), 'b': ('/p/comp', 'esp-idf/comp/libcomp.a'),
              'cfg': ('/p/cfg', None)},
    'nested': {'main': ('/p/main', 'esp-idf/main/libmain.a'), 'in': ('/p/main/sub', 'esp-idf/sub/libsub.a'),
               'b': ('/p/comp', 'esp-idf/comp/libcomp.a'), 'all': ('/p', 'esp-idf/all/liball.a'), 'cfg': ('/p/cfg', None)},
    'prefix': {'c': ('/p/comp2', 'esp-idf/comp2/libcomp2.a'), 'b': ('/p/comp', 'esp-idf/comp/libcomp.a'),
               'm': ('/p/mai', 'esp-idf/mai/libmai.a'), 'main': ('/p/main', 'esp-idf/main/libmain.a'),
               'cfg': ('/p/cfg', None)},
    'slash': {'in': ('/p/main/sub/', 'esp-idf/sub/libsub.a'), 'main': ('/p/main/', 'esp-idf/main/libmain.a'),
              'b': ('/p/comp/', 'esp-idf/comp/libcomp.a'), 'cfg': ('/p/cfg/', None)},
    'none': {},
    'deep-cfg': {'main': ('/p/main', 'esp-idf/main/libmain.a'), 'in': ('/p/main/sub', None),
                 'b': ('/p/comp', 'esp-idf/comp/libcomp.a')},
}
SOURCES = {'main': '/p/main/m.c', 'sub': '/p/main/sub/s.c', 'comp': '/p/comp/c.c', 'comp2': '/p/comp2/c.c', 'cfg': '/p/cfg/g.c',
           'out': '/q/p/main/o.c', 'rel': 'main/m.c', 'nameless': None, 'spaces': '/p/comp/a dir/x y.c', 'dir': '/p/main',
           'same': '/p/comp/m.c'}


def component_archive(comps, source):
    """Innermost component whose directory contains the file, among those that have an archive."""
    if source is None or not source.startswith('/'):
        return None
    best = None
    for d, f in COMPS[comps].values():
        if not f:
            continue
        parts, file = [x for x in d.split('/') if x], [x for x in source.split('/') if x]
        if len(file) > len(parts) and file[:len(parts)] == parts and (best is None or len(parts) > best[0]):
            best = (len(parts), f)
    return best and best[1]


# piece: (size, symbol type or None, source key or None (no debug information))
PIECES = {
    'gap': (4, None, None), 'main': (8, 'func', 'main'), 'data': (12, 'object', 'main'), 'sub': (4, 'func', 'sub'),
    'comp': (16, 'func', 'comp'), 'comp2': (4, 'object', 'comp2'), 'cfg': (4, 'func', 'cfg'), 'out': (4, 'func', 'out'),
    'bare': (8, 'func', None), 'bare-data': (4, 'object', None), 'rel': (4, 'func', 'rel'), 'nameless': (4, 'func', 'nameless'),
    'abs': (4, 'func', 'main'), 'notype': (4, 'notype', 'main'), 'spaces': (4, 'object', 'spaces'), 'alias': (8, 'func', 'comp'),
    'same': (4, 'func', 'same'), 'empty-sym': (4, 'func', 'main'), 'local': (4, 'func', 'main'), 'weak': (4, 'func', 'main'), 'dir': (4, 'func', 'dir'),
}


def build_image(secs, target='esp32'):
    """secs: [(output section, [(archive|None, object, [piece...], fill)])] -> (Img, units, {isec: attribution})"""
    contents = []
    for o, isecs in secs:
        items = []
        for n, (arch, obj, pcs, fill) in enumerate(isecs):
            size = sum(PIECES[p][0] for p in pcs if p != 'ghost')
            items.append((arch, obj, f'.text.i{n}', size))
            if fill:
                items.append(('fill', fill))
        contents.append((o, items))
    img = imgs.image(contents, target)
    img.symbols = []
    units = {}
    split = {}
    k = 0
    for (o, isecs), out in zip(secs, img.outs):
        ins = [i for i in out.items if isinstance(i, model.Ins)]
        for (arch, obj, pcs, _f), it in zip(isecs, ins):
            at = it.addr
            if pcs[:1] == ['ghost']:
                # listed by the linker, but superseded by the next input section at the same address
                it.size = 8
                pcs = []
            cuts = []
            for p in pcs:
                size, typ, src = PIECES[p]
                if typ:
                    k += 1
                    s = {'name': f's{k}', 'addr': at, 'size': size, 'type': typ}
                    if p == 'abs':
                        s['shndx'] = 0xfff1
                    if p == 'empty-sym':
                        s['size'] = 0
                    if p in ('local', 'weak'):
                        s['bind'] = p
                    img.symbols.append(s)
                    if p == 'alias':
                        img.symbols.append(dict(s, name=f's{k}_alias'))
                    if src is not None:
                        units.setdefault(src, []).append(('func' if typ != 'object' else 'var', s['name'], at))
                        if typ in ('func', 'object') and p not in ('abs', 'empty-sym'):
                            cuts.append((at, at + size, SOURCES[src]))
                at += size
            split[(out.name, it.addr)] = cuts
    return img, units, split


def expected(img, split, comps, load_symbols, used=True):
    def override(o):
        res = []
        for it, a, b in model.effective(o):
            if it.archive or not used:
                res.append((it.name, a, b, it.archive or '(exe)', it.obj))
                continue
            pos = a
            for lo, hi, src in split[(o.name, it.addr)]:
                arch = component_archive(comps, src)
                if arch is None:
                    continue
                if pos < lo:
                    res.append((it.name, pos, lo, '(exe)', it.obj))
                res.append(('?', lo, hi, arch, model.base(src)))
                pos = hi
            if pos < b:
                res.append((it.name, pos, b, '(exe)', it.obj))
        return res
    return model.oracle(img, load_symbols=load_symbols, with_elf=True, override=override)[0]


def drop_empty(m):
    for t in m['memory_types'].values():
        for s in t['sections'].values():
            for an in list(s['archives']):
                ob = s['archives'][an]['object_files']
                for on in list(ob):
                    if not ob[on]['size']:
                        del ob[on]
                if not ob:
                    del s['archives'][an]
    return m


def dwarf_cb(units, version=4, d64=False, form='string', style='plain', order=0):
    us = [(SOURCES[s], v) for s, v in units.items()]
    if order:
        us.reverse()
    if style == 'plain':
        return lto.dwarf(us, version, d64, form)

    def cb(w):
        d = elfgen.Dwarf(w, version, d64)
        if style == 'nested':
            for name, syms in us:
                attrs = [lto.name_attr(d, name, form)] if name is not None else []
                kids = []
                for s in syms:
                    inner = lto.die(d, *s)
                    if s[0] == 'func':
                        kids.append((lto.NS, [(lto.NAME, 0x08, b'ns\0')], [inner]))
                    else:   # static variable in a block of a function without code address
                        kids.append((lto.SUBP, [(lto.NAME, 0x08, b'fn\0')], [(lto.BLOCK, [], [inner])]))
                kids.append((lto.ITYPE, [(lto.NAME, 0x08, b'int\0'), (lto.SIZE, 0x0b, b'\4')], None))
                d.unit((lto.CU, attrs, kids))
        else:   # origin: definitions in an artificial unit refer to the abstract instances in the real ones
            refs = []
            for name, syms in us:
                attrs = [lto.name_attr(d, name, form)] if name is not None else []
                kids = [lto.die(d, k, n, None) for k, n, _a in syms]
                offs = d.unit((lto.CU, attrs, kids))
                refs += [(k, a, offs[id(x)]) for (k, n, a), x in zip(syms, kids)]
            kids = []
            for k, a, off in refs:
                x = lto.die(d, k, None, a)
                kids.append((x[0], [(lto.ORIGIN, 0x10, d.addr(off) if version == 2 else d.offset(off))] + x[1], None))
            d.unit((lto.CU, [(lto.NAME, 0x08, b'<artificial>\0')], kids))
        d.attach()
    return cb


def project(name, img, units, comps, desc=True, elf=True, sdk=None, elf_kw=None, **dw):
    d = os.path.join(sut.WDIR, name)
    pd = lto.description(COMPS[comps], img.target)
    if desc == 'other':
        pd['app_elf'] = 'another.elf'
    elif desc in ('build_component_info', 'build_dir'):
        del pd[desc]
    elif desc in ('file', 'dir'):
        for comp in pd['build_component_info'].values():
            comp.pop(desc)
    elif desc == 'list':
        pd['build_component_info'] = list(pd['build_component_info'].values())
    if elf == 'unreadable':
        dw['version'] = 9
    mp = proj.put(d, img, elf=True, dwarf=dwarf_cb(units, **dw), proj_desc=pd, sdkconfig=sdk, **(elf_kw or {}))
    if not desc:
        os.unlink(os.path.join(d, 'project_description.json'))
    if not elf:
        os.unlink(os.path.join(d, 'app.elf'))
    return mp


def check_get(sc):
    secs, comps, dw, syms, elf_kw = sc
    img, units, split = build_image(secs)
    mp = project('l', img, units, comps, elf_kw=dict(elf_kw), **dict(dw))
    exp = expected(img, split, comps, syms)
    plain = expected(img, split, comps, syms, used=False)
    got, err = sut.get(mp, load_symbols=syms, use_dwarf=True)
    errs = model.compare_maps(drop_empty(got), exp)
    if 'DWARF' in err:
        errs.append('warning about debug information: ' + err)
    if not errs and not dw:
        off, err = sut.get(mp, load_symbols=syms, use_dwarf=False)
        errs = ['without LTO: ' + e for e in model.compare_maps(off, plain)]
    if errs:
        raise Violation('\n'.join(errs[:15]) + f'\nsections {secs}, components {comps}, debug information {dw}')
    return model_key(exp)


def model_key(m):
    return repr({t: {s: {a: {o: v2['size'] for o, v2 in v['object_files'].items()} for a, v in x['archives'].items()}
                     for s, x in y['sections'].items()} for t, y in m['memory_types'].items()})


LT = '/tmp/ccAbC.ltrans0.ltrans.o'


def seq_space(pieces, depth, comps, name, bounds, syms=(False, True)):
    def build(c):
        co = c.choose('components', comps)
        n = c.choose('pieces', range(1, depth + 1))
        pcs = [c.choose(f'piece {i}', pieces) for i in range(n)]
        ld = c.choose('symbols', syms)
        if ld and any(p == 'abs' for p in pcs):
            pass
        return ([('.flash.text', [(None, LT, pcs, 0)])], co, (), ld, ())
    return Space(name, build, check_get, bounds=bounds)


def long_space(counts):
    """Many pieces in one input section, many input sections."""
    core = ('main', 'gap', 'comp', 'sub', 'data', 'bare', 'comp2', 'out')

    def build(c):
        n = c.choose('pieces', counts)
        step = c.choose('step', (1, 3, 5))
        first = c.choose('first', range(len(core)))
        pcs = [core[(first + i * step) % len(core)] for i in range(n)]
        if c.flag('one input section each'):
            isecs = [((A, 'x.c.obj', [p], 0) if i % 5 == 4 else (None, LT, [p], 4 if i % 3 == 0 else 0)) for i, p in enumerate(pcs)]
        else:
            isecs = [(None, LT, pcs, 0)]
        return ([('.flash.text', isecs)], c.choose('components', ('nested', 'prefix')), (), c.flag('symbols'), ())
    return Space('long', build, check_get, bounds=f'{len(counts)} lengths up to {max(counts)} x 24 cyclic sequences of 8 kinds of pieces x one or many '
                                                  'input sections x 2 component layouts x symbols')


def arrange_space(depth, full):
    """Several input sections, with and without archive, padding, several output sections."""
    inners = (['main'], ['gap', 'main', 'gap'], ['main', 'comp'], ['bare'], ['gap'], ['data', 'gap'], ['sub', 'bare', 'comp'], ['ghost'])
    if not full:
        inners = inners[:4] + inners[-1:]

    def build(c):
        n = c.choose('input sections', range(1, depth + 1))
        isecs = []
        for i in range(n):
            pcs = c.choose(f'contents {i}', inners)
            kind = c.choose(f'kind {i}', ((None, LT), (A, 'x.c.obj'), (None, 'CMakeFiles/app.elf.dir/main.c.obj')) + (((ODD, 'x.c.obj'),) if full else ()))
            if pcs == ['ghost'] and i == n - 1:
                raise Prune()
            isecs.append((kind[0], kind[1], pcs, 0 if pcs == ['ghost'] else c.choose(f'padding {i}', (0, 4))))
        split = c.choose('second output section', range(0, n) if n > 1 else (0,))
        if split and isecs[split - 1][2] == ['ghost']:
            raise Prune()
        secs = [('.iram0.text', isecs[:split]), ('.flash.text', isecs[split:])] if split else [('.flash.text', isecs)]
        return (secs, 'nested', (), c.choose('symbols', (True, False) if full else (True,)), ())
    return Space(f'arrangements-{depth}', build, check_get, bounds=f'all arrangements of <= {depth} input sections over {len(inners)} contents x '
                 f'{4 if full else 3} owners x padding x output sections')


def dwarf_space(full):
    """How the debug information is written."""
    def build(c):
        pcs = c.choose('pieces', (['main', 'gap', 'data', 'comp'], ['sub', 'data', 'spaces'], ['nameless', 'main', 'out', 'comp2']))
        dw = (('version', c.choose('version', (4, 5, 3, 2))), ('d64', c.flag('64-bit DWARF')),
              ('form', c.choose('name form', ('string', 'strp', 'line_strp'))),
              ('style', c.choose('style', ('plain', 'nested', 'origin'))), ('order', c.choose('unit order', (0, 1))))
        if dict(dw)['form'] == 'line_strp' and dict(dw)['version'] < 5:
            raise Prune()
        kw = (('bits', c.choose('class', (32, 64))), ('little', not c.flag('big endian')))
        return ([('.flash.text', [(None, LT, pcs, 0), (A, 'x.c.obj', ['main'], 0)])], c.choose('components', ('nested', 'plain')), dw,
                c.choose('symbols', (False, True)), kw)
    return Space('debug-information', build, check_get, bounds='DWARF 4/5 x 32/64-bit x name forms x entry structure x unit order x ELF '
                                                               'class x byte order')


# ---------------------------------------------------------------- when it is used

SDK = {'on': {'COMPILER_LTO_LINKTIME': True}, 'off': {'COMPILER_LTO_LINKTIME': False}, 'key missing': {'OTHER': 1, 'COMPILER_LTO': True, 'LTO': True, 'CONFIG_LTO': 'y', 'BOOTLOADER_COMPILER_LTO_LINKTIME': True}, 'missing': None}


def check_mode(sc):
    opt, sdk, desc, elf, report, comps = sc
    secs = [('.flash.text', [(None, LT, ['main', 'gap', 'sub', 'comp'], 0), (A, 'x.c.obj', ['main'], 4)]),
            ('.dram0.data', [(None, LT, ['data', 'bare-data'], 0)])]
    img, units, split = build_image(secs)
    mp = project('m', img, units, comps, desc=desc, elf=elf, sdk=SDK[sdk])
    wanted = opt is True or (opt is None and sdk == 'on')
    available = desc is True and elf is True
    used = wanted and available
    if elf and desc and desc != 'other':
        exp = expected(img, split, comps, False, used)
    else:
        exp = model.oracle(img, load_symbols=False, with_elf=False)[0]
    if report == 'library':
        got, err = sut.get(mp, use_dwarf=opt)
    else:
        args = {True: ['--lto'], False: ['--no-lto'], None: []}[opt]
        r = sut.cli(*args, *({'raw': ('--format', 'raw', '--show-unused'), 'archives': ('--archives', '--format', 'json2', '--no-abbrev'),
                             'files': ('--files', '--format', 'json2', '--no-abbrev')}[report]), mp)
        if r.rc or r.exc:
            raise Violation(f'{sc}: {r}')
        err = r.err
        got = reports.jsonv(r.out)
    errs = []
    if report in ('library', 'raw'):
        have = totals(got)
    else:
        have = {}
        for n, e in got.items():
            key = tuple(n.rsplit(':', 1)) if report == 'files' else (n,)
            have[key] = e['size']
    want = totals(exp)
    if report == 'archives':
        w2 = {}
        for (a, o), v in want.items():
            w2[(a,)] = w2.get((a,), 0) + v
        want = w2
    if report == 'files':
        have = {tuple(reversed(k)) if k not in want else k: v for k, v in have.items()} if have.keys() != want.keys() else have
    if {k: v for k, v in have.items() if v} != {k: v for k, v in want.items() if v}:
        errs.append(f'attribution is {have}, expected {want}')
    warned = 'DWARF' in err
    if warned != (wanted and not available):
        errs.append(f'warning printed: {warned}, expected {wanted and not available}\n{err}')
    if errs:
        raise Violation(f'{sc}: ' + '\n'.join(errs))
    return (used, repr(have))


def totals(m):
    out = {}
    for t in m['memory_types'].values():
        for s in t['sections'].values():
            for an, a in s['archives'].items():
                for on, o in a['object_files'].items():
                    out[an, on] = out.get((an, on), 0) + o['size']
    return out


def mode_space():
    def build(c):
        return (c.choose('option', (None, True, False)), c.choose('sdkconfig', tuple(SDK)), c.choose('description', (True, False, 'other', 'build_component_info', 'build_dir', 'file', 'dir', 'list')),
                c.choose('elf', (True, False, 'unreadable')), c.choose('report', ('library', 'raw', 'archives', 'files')),
                c.choose('components', ('nested', 'prefix')))
    return Space('when-used', build, check_mode, bounds='option x sdkconfig x description x ELF x report x components, all combinations')


def check_diff(sc):
    """Both sides of a difference are attributed by their own debug information and component layout."""
    opt, sdk, rsdk, cur, ref, comps, rcomps, report = sc
    sides = []
    for name, pcs, sd, co in (('m', cur, sdk, comps), ('r', ref, rsdk, rcomps)):
        img, units, split = build_image([('.flash.text', [(None, LT, pcs, 0), (A, 'x.c.obj', ['main'], 4)])])
        mp = project(name, img, units, co, sdk=SDK[sd])
        sides.append((mp, totals(expected(img, split, co, False, opt is True or (opt is None and sd == 'on')))))
    args = {True: ['--lto'], False: ['--no-lto'], None: []}[opt]
    r = sut.cli(*args, *({'raw': ('--format', 'raw', '--show-unused'), 'archives': ('--archives', '--format', 'json2', '--no-abbrev'),
                         'details': ('--archive-details', 'libmain.a', '--format', 'json2', '--show-unchanged')}[report]),
                '--diff', sides[1][0], sides[0][0])
    if r.exc or (r.rc and report != 'details'):
        raise Violation(f'{sc}: {r}')
    w = [{}, {}]
    for side, o in zip(sides, w):
        for (a, f), v in side[1].items():
            k = (a, f) if report == 'raw' else a
            o[k] = o.get(k, 0) + v
    want = {k: (w[0].get(k, 0), w[0].get(k, 0) - w[1].get(k, 0)) for k in {**w[0], **w[1]}}
    if report == 'details':
        k = 'esp-idf/main/libmain.a'
        n = want.get(k, (0, 0))
        if k not in want:
            if not r.rc:
                raise Violation(f'{sc}: report about an archive which does not exist: {r}')
            return 'none'
        got = reports.jsonv(r.out)
        have = (sum(e['size'] for e in got.values()), sum(e['size_diff'] for e in got.values()))
        if have != n:
            raise Violation(f'{sc}: symbols of {k} sum up to {have}, expected {n}\n{r}')
        return repr(have)
    got = reports.jsonv(r.out)
    have = {}
    if report == 'raw':
        for k in ('size', 'size_diff'):
            for t in got['memory_types'].values():
                for s in t['sections'].values():
                    for an, a in s['archives'].items():
                        for on, o in a['object_files'].items():
                            e = have.setdefault((an, on), {'size': 0, 'size_diff': 0})
                            e[k] += o[k]
    else:
        have = got
    have = {k: (e['size'], e['size_diff']) for k, e in have.items() if e['size'] or e['size_diff']}
    want = {k: v for k, v in want.items() if v[1] or (report == 'raw' and v[0])}
    if report == 'raw':
        have = {k: v for k, v in have.items()}
    if have != want:
        raise Violation(f'{sc}: difference is {have}, expected {want}')
    return repr(have)


def diff_space():
    P = (['main', 'comp'], ['main', 'gap', 'data'], ['comp', 'sub'], ['bare'])

    def build(c):
        return (c.choose('option', (True, None, False)), c.choose('sdkconfig', ('off', 'on')), c.choose('reference sdkconfig', ('off', 'on')),
                c.choose('pieces', P), c.choose('reference pieces', P), c.choose('components', ('plain', 'nested')),
                c.choose('reference components', ('plain', 'nested')), c.choose('report', ('raw', 'archives', 'details')))
    return Space('differences', build, check_diff, bounds='option x configuration, contents and component layout of either side x 3 reports')


def spaces(tier):
    core = ('main', 'gap', 'comp', 'sub', 'data', 'bare', 'cfg', 'comp2', 'out', 'alias')
    real = [ccconf.lto_space(tier != 'quick')] if ccconf.available() else []
    if tier == 'quick':
        return real + [mode_space(), diff_space(), dwarf_space(False),
                seq_space(tuple(PIECES), 2, tuple(COMPS), 'pieces-2', 'all sequences of <= 2 pieces over all kinds x 6 component layouts',
                          syms=(True,)),
                seq_space(core, 3, ('nested', 'prefix'), 'pieces-3', 'all sequences of <= 3 pieces over 10 kinds x 2 layouts',
                          syms=(True,)),
                seq_space(tuple(PIECES), 1, tuple(COMPS), 'pieces-1', 'single pieces x layouts x symbols'),
                arrange_space(2, True), arrange_space(3, False), long_space((9, 17, 34))]
    return real + [mode_space(), diff_space(), dwarf_space(True),
            seq_space(tuple(PIECES), 3, tuple(COMPS), 'pieces-3', 'all sequences of <= 3 pieces over all kinds x 6 layouts', syms=(True,)),
            seq_space(core, 4, ('nested', 'prefix'), 'pieces-4', 'all sequences of <= 4 pieces over 10 kinds x 2 layouts', syms=(True,)),
            arrange_space(3, True), long_space((9, 17, 34, 70, 130))]
