"""C06: attribution of ELF symbols.  Model = sets of symbols placed on an address line with input sections and gaps."""
import os

from .. import chips, crefconf, expect, large, ldconf, model, proj, sut
from ..core import Space, Violation

ASSUMPTIONS = ['a symbol outside all reported input sections does not reach beyond the next input section (such a symbol '
               'contradicts the link map in a way the property does not define)']

A, B = 'esp-idf/a/liba.a', 'esp-idf/b/libb.a'
D = 0x3FFB0000     # .dram0.data
I = 0x40080000     # .iram0.text


def image(order='data first', names='distinct'):
    n = (lambda k: f'.data.{k}') if names == 'distinct' else (lambda k: '.data.same')
    d = model.Layout('.dram0.data', D)
    d.ins(n('x'), 0x10, A, 'x.c.obj')
    d.fill(8)
    d.ins(n('y'), 0x20, A, 'y.c.obj')
    d.ins(n('x2'), 0x10, A, 'x.c.obj')
    i = model.Layout('.iram0.text', I)
    i.ins('.text.f', 0x20, B, 'x.c.obj')
    i.ins('.text.empty', 0, B, 'x.c.obj')
    i.ins('.text.g', 0x10, None, 'main.c.obj')
    n = model.Layout('.dram0.heap_start', 0x3FFB8000, 'noalloc')
    n.ins('.heap', 0x40, B, 'h.c.obj')
    outs = [d.out, i.out, n.out]
    if order != 'data first':
        outs = outs[::-1]
    return model.Img('esp32', chips.REGIONS['esp32'], outs, symbols=[])


# (address, size): where symbols can be
SPOTS = [
    (D, 0x10), (D, 0x8), (D + 8, 0x8), (D + 0x18, 0x20), (D + 0x18, 1), (D + 0x37, 1), (D + 0x38, 0x10), (D + 0x3C, 4),
    (I, 0x20), (I + 4, 0x1C), (I + 0x20, 0x10), (I + 0x2F, 1),
    (D + 0x10, 4), (D - 0x100, 0x20), (0x1000, 0x10), (D + 0x48, 4), (0x3FFB8000, 0x40), (D, 0),
    (D + 8, 0x10), (D + 0x18, 0x21), (D + 0x30, 0x9), (I + 0x2F, 2), (I + 0x30, 4), (0x50000000, 8),
]
GOOD = SPOTS[:18]
TYPES = ('object', 'func', 'notype', 'section', 'file', 'tls')
NAMES = ('f', 'g', 'h')
ODD = ('f', 'f()', 'operator()', 'f(int)', '_ZN3foo3barEv', 'f.part.0', 'f.constprop.0', '$d', '.L1', '.data.x', '.text.f', '.literal', '',
       ' ', 'a b', 'f ', '\u00e9', '__func__.1', 'f$', 'F', '0', '*fill*', 'x.c.obj', 'liba.a')


class Case:
    def __init__(self, syms, order='data first', names='distinct', bits=32, little=True):
        self.syms, self.order, self.names, self.bits, self.little = syms, order, names, bits, little

    def __repr__(self):
        return (f'symbols={[(s["name"], hex(s["addr"]), s["size"], s["type"]) for s in self.syms]} {self.order} {self.names} '
                f'{self.bits} {self.little} {[(s.get("bind"), s.get("shndx"), s.get("other")) for s in self.syms]}')


def check(case, cli=False):
    img = image(case.order, case.names)
    img.symbols = case.syms
    mp = proj.put(os.path.join(sut.WDIR, 'p'), img, elf=True, bits=case.bits, little=case.little)
    try:
        exp, _ = model.oracle(img, True, True)
        bad = None
    except model.Contradiction as e:
        bad = str(e)
    try:
        got, err = sut.get(mp)
    except sut.memorymap.MemMapException as e:
        if bad is None:
            raise Violation(f'{case!r}: refused although symbols agree with the link map: {e}')
        if not any(s['name'] in str(e) for s in contradictory(img)):
            raise Violation(f'{case!r}: diagnostic does not name a contradicting symbol: {e}')
        if cli:
            r = sut.cli('--format', 'raw', mp)
            if r.exc or not r.rc or r.out or not any(s['name'] in r.err for s in contradictory(img)):
                raise Violation(f'{case!r}: {r}')
        return 'contradiction'
    if bad is not None:
        raise Violation(f'{case!r}: symbol {bad} contradicts the link map, but a map was produced')
    errs = model.compare_maps(got, exp)
    if cli:
        for arch in ('liba.a', 'libb.a', '(exe)'):
            for fmt in ('table', 'json2', 'csv', 'tree'):
                o = expect.O(fmt=fmt, report='details', details=arch, abbrev=False)
                expect.verify(o, mp, img, with_elf=True)
        # symbols are not needed: the contradiction cannot matter
        o = expect.O(fmt='json2', report='files')
        expect.verify(o, mp, img, with_elf=True)
    if errs:
        raise Violation(f'{case!r}\n  ' + '\n  '.join(errs[:10]) + '\n' + model.render(img))
    return sorted((o, repr(oi['symbols'])) for t in got['memory_types'].values() for s in t['sections'].values()
                  for a in s['archives'].values() for o, oi in a['object_files'].items())


def contradictory(img):
    """All symbols that contradict the map on their own."""
    res = []
    for s in img.symbols:
        one = model.Img(img.target, img.regions, img.outs, symbols=[s])
        try:
            model.assign_symbols(one, [o for o in img.outs if model.kept(o, True)])
        except model.Contradiction:
            res.append(s)
    return res


def sym_space(name, n, spots, types, names, check_, bounds, variants=False, budget=None):
    def build(c):
        syms = []
        for i in range(n):
            sp = c.choose(f'spot{i}', [None] + list(spots))
            if sp is None:
                break
            syms.append({'name': c.choose(f'name{i}', names), 'addr': sp[0], 'size': sp[1],
                         'type': c.choose(f'type{i}', types)})
        case = Case(syms)
        if variants:
            case.order = c.choose('order', ('data first', 'reversed'))
            case.names = c.choose('input names', ('distinct', 'same'))
            case.bits = c.choose('bits', (32, 64))
            case.little = c.choose('little', (True, False))
            for i, s in enumerate(syms):
                s['bind'] = c.choose(f'bind{i}', ('global', 'local', 'weak'))
                s['shndx'] = c.choose(f'shndx{i}', (1, 0xFFF1))
                s['other'] = c.choose(f'visibility{i}', (0, 2))
        return case
    return Space(name, build, check_, bounds=bounds, budget=budget)


def noelf_space():
    """Without the ELF input sections represent themselves; equal names add up."""
    def build(c):
        items = [(c.choose(f'archive{i}', (A, B, None)), c.choose(f'object{i}', ('x.c.obj', 'y.c.obj')),
                  c.choose(f'name{i}', ('.text.f', '.text.g', '.literal'))) for i in range(3)]
        return (tuple(items), c.choose('way', ('no description', 'no file', 'other executable')))

    def chk(sc):
        items, way = sc
        lay = model.Layout('.iram0.text', I)
        for i, (a, o, n) in enumerate(items):
            lay.ins(n, 0x10 << (2 * i), a, o)
        img = model.Img('esp32', chips.REGIONS['esp32'], [lay.out])
        pd = {'no description': None, 'no file': {'app_elf': 'app.elf', 'target': 'esp32'},
              'other executable': {'app_elf': 'x.elf', 'target': 'esp32'}}[way]
        mp = proj.put(os.path.join(sut.WDIR, 'p'), img, proj_desc=pd)
        got, _ = sut.get(mp)
        errs = model.compare_maps(got, model.oracle(img)[0])
        if errs:
            raise Violation(f'{sc}\n  ' + '\n  '.join(errs[:10]))
        return repr(got['memory_types'])
    return Space('no-elf', build, chk, bounds='3 input sections x 3 archives x 2 objects x 3 names x 3 ways of not having '
                                               'an ELF')


def many_space(maxn):
    """Many symbols tiling many input sections."""
    def build(c):
        return (c.choose('input sections', list(range(1, maxn + 1))), c.choose('symbols each', (0, 1, 2, 3)),
                c.choose('padding', (0, 4)), c.choose('table order', ('up', 'down', 'interleaved')))

    def chk(sc):
        n, k, pad, order = sc
        lay = model.Layout('.iram0.text', I)
        syms = []
        for i in range(n):
            it = lay.ins(f'.text.f{i}', 0x18, (A, B)[i % 2], f'o{i % 3}.c.obj')
            if pad:
                lay.fill(pad)
            for j in range(k):
                syms.append({'name': f's{i % 5}_{j}', 'addr': it.addr + 8 * j, 'size': 8,
                             'type': ('func', 'object')[(i + j) % 2]})
        if order == 'down':
            syms.reverse()
        elif order == 'interleaved':
            syms = syms[::2] + syms[1::2]
        img = model.Img('esp32', chips.REGIONS['esp32'], [lay.out], symbols=syms)
        mp = proj.put(os.path.join(sut.WDIR, 'p'), img, elf=True)
        got, _ = sut.get(mp)
        errs = model.compare_maps(got, model.oracle(img, True, True)[0])
        if errs:
            raise Violation(f'{sc}\n  ' + '\n  '.join(errs[:10]))
        return repr(got['memory_types'])
    return Space('many', build, chk, bounds=f'1..{maxn} input sections x symbols each x padding x table order')


def base_spaces(tier):
    def cli(case):
        return check(case, True)
    if tier == 'quick':
        return [sym_space('one', 1, SPOTS, TYPES, NAMES[:1], check, '24 places x 6 symbol types x binding x section index '
                          'x visibility x ELF class x byte order x map order', variants=True),
                sym_space('two', 2, SPOTS, ('object', 'func', 'notype'), NAMES[:2], check,
                          'all ordered pairs of symbols over 24 places x 3 types x 2 names'),
                sym_space('three', 3, GOOD[:12], ('object', 'func'), NAMES[:2], check,
                          'ordered triples over 12 places x types x names, <=5 deviations', budget=5),
                sym_space('symbol-names', 2, ((D, 0x8), (D + 8, 0x8), (I, 0x20)), ('object', 'func'), ODD, check,
                          'all pairs of 24 symbol names x 3 places x 2 types, <=4 deviations', budget=4),
                noelf_space(), many_space(24),
                sym_space('cli', 2, SPOTS[::3] + SPOTS[18:21], ('func', 'object'), NAMES[:2], cli,
                          'ordered pairs through the command line, <=3 deviations', budget=3)]
    return [sym_space('one', 1, SPOTS, TYPES, NAMES[:1], check, '24 places x 6 symbol types x all variants', variants=True),
            sym_space('two', 2, SPOTS, TYPES, NAMES[:2], check, 'all ordered pairs over 24 places x 6 types x 2 names'),
            sym_space('three', 3, GOOD[:14], ('object', 'func'), NAMES[:2], check, 'all ordered triples over 14 places x '
                                                                                    'types x names'),
            sym_space('symbol-names', 2, ((D, 0x8), (D + 8, 0x8), (I, 0x20)), ('object', 'func'), ODD, check,
                      'all pairs of 24 symbol names x 3 places x 2 types'),
            noelf_space(), many_space(120),
            sym_space('cli', 2, SPOTS, ('func', 'object'), NAMES[:2], cli, 'ordered pairs through the command line')]


def spaces(tier):
    n = large.QUICK if tier == 'quick' else large.FULL
    real = [crefconf.space(crefconf.check_symbols, 2 if tier == 'quick' else 3, False)] if ldconf.available() else []
    return real + base_spaces(tier) + [large.space(('details',), ('json2', 'raw'), names=('full',), diffs=(False,), elfs=(False, True), counts=n)]
