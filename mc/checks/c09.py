"""C09: all formats state the same summary, for every project of the family and every option set."""
from .. import expect, family, large, model
from ..core import Space, Violation

ASSUMPTIONS = ['report text is read by independent parsers (mc/reports.py); expected values come from mc/model.py']
FORMATS = ('table', 'csv', 'json2', 'tree', 'raw', 'text')


class Case:
    def __init__(self, cur, ref, opts, target='esp32', regions=None):
        self.cur, self.ref, self.opts, self.target, self.regions = cur, ref, opts, target, regions

    def __repr__(self):
        return f'{self.target} cur={self.cur} ref={self.ref} {self.opts!r} {self.regions}'


def options(c, diff, formats=FORMATS, **kw):
    o = expect.O(fmt=c.choose('format', formats), **kw)
    nm = c.choose('names', ('abbrev', 'full', 'unify'))
    o.abbrev, o.unify = nm != 'full', nm == 'unify'
    o.flash = c.flag('use-flash-size')
    o.unused = c.flag('show-unused')
    if diff:
        o.unchanged = c.flag('show-unchanged')
    return o


def check(case):
    from ..checks import c09  # noqa: F401
    img = family.make(case.cur, case.target, regions=case.regions)
    ref = family.make(case.ref, case.target, regions=case.regions) if case.ref is not None else None
    mp = family.put('cur', img)
    rp = family.put('ref', ref) if ref is not None else None
    r, m = expect.verify(case.opts, mp, img, rp, ref)
    # independent totals: what is printed adds up
    return r.out


def check_all_formats(case):
    """One project and option set through every format: they agree with the model, hence with each other."""
    img = family.make(case.cur, case.target, regions=case.regions)
    ref = family.make(case.ref, case.target, regions=case.regions) if case.ref is not None else None
    mp = family.put('cur', img)
    rp = family.put('ref', ref) if ref is not None else None
    outs = []
    for fmt in FORMATS:
        case.opts.fmt = fmt
        r, _ = expect.verify(case.opts, mp, img, rp, ref)
        outs.append(r.out)
    if outs[0] != outs[5]:
        raise Violation(f'text and table formats differ:\n{outs[0]}\n{outs[5]}')
    return outs[1] + outs[2]


def pair_space(pairs, name='pairs'):
    def build(c):
        cur, ref = c.choose('projects', pairs)
        if not c.flag('diff'):
            ref = None
        return Case(cur, ref, options(c, ref is not None, formats=('all',)))
    return Space(name, build, check_all_formats, bounds=f'{len(pairs)} project pairs x every option combination x '
                                                        f'all formats')


def layout_space(budget, name='layouts'):
    def build(c):
        cur = family.pick(c)
        diff = c.flag('diff')
        ref = family.pick(c, 'ref') if diff else None
        return Case(cur, ref, options(c, diff, formats=('all',)))
    return Space(name, build, check_all_formats, budget=budget,
                 bounds=f'all projects, references and options with <= {budget} deviations from the default project')


def size_space(maxv):
    """Used/total ratios: percentages and remainders at the edges (0, 1 byte, full, over full, repeating fractions)."""
    sizes = [1, 2, 3, 7, 0x1000, 0x1FFFF, 0x20000]
    lens = [0, 1, 3, 7, 0x1000, 0x20000, 0x1FFFD]

    def build(c):
        s, n = c.choose('used', sizes[:maxv]), c.choose('total', lens)
        diff = c.flag('diff')
        rs, rn = (c.choose('ref used', sizes[:maxv]), c.choose('ref total', lens)) if diff else (None, None)
        o = expect.O(unused=c.flag('show-unused'))
        o.unchanged = diff
        return (s, n, rs, rn, o)

    def one(s, n):
        lay = model.Layout('.iram0.text', 0x40080000)
        lay.ins('.text.f', s, family.A1, 'x.c.obj')
        lay2 = model.Layout('.dram0.data', 0x3FFB0000)
        lay2.ins('.data.f', 3, family.A1, 'x.c.obj')
        regs = [('iram0_0_seg', 0x40080000, n, 'xr'), ('dram0_0_seg', 0x3FFB0000, 7, 'rw'),
                ('rtc_slow_seg', 0x50000000, 0x1000, 'rw')]
        return model.Img('esp32', regs, [lay.out, lay2.out])

    def chk(sc):
        s, n, rs, rn, o = sc
        img = one(s, n)
        ref = one(rs, rn) if rs is not None else None
        mp = family.put('cur', img)
        rp = family.put('ref', ref) if ref is not None else None
        out = ''
        for o.fmt in ('table', 'csv', 'json2', 'tree'):
            out += expect.verify(o, mp, img, rp, ref)[0].out
        return out
    return Space('sizes', build, chk, bounds='used x total x reference used x reference total over boundary values')


def chip_space(full):
    chips_ = ('esp32', 'esp32c2', 'esp32c3', 'esp32c5', 'esp32c6', 'esp32c61', 'esp32h2', 'esp32h21', 'esp32h4',
              'esp32p4', 'esp32s2', 'esp32s3', 'esp32s31')

    def build(c):
        t = c.choose('chip', chips_)
        diff = c.flag('diff')
        cur = family.sel(rtc_data=0)
        return Case(cur, family.sel(iram0_text=1, dram0_data=3) if diff else None,
                    options(c, diff, formats=('all',)), t)
    return Space('chips', build, check_all_formats, budget=None if full else 2,
                 bounds='13 chips x options' + ('' if full else ' (<=2 deviations)'))


def base_spaces(tier):
    if tier == 'quick':
        return [pair_space(family.PAIRS), layout_space(2), size_space(5), chip_space(False)]
    return [pair_space(family.PAIRS), layout_space(3), size_space(7), chip_space(True)]


def spaces(tier):
    n = large.QUICK if tier == 'quick' else large.FULL
    return base_spaces(tier) + [large.space(('summary',), ('table', 'text', 'csv', 'json2', 'tree', 'raw'), names=('abbrev', 'full', 'unify'), counts=n)]
