"""C03: capacity of memory types.  Model = the MEMORY command of the linker script, for every chip."""
import itertools
import json
import os

from .. import chips, model, proj, sut
from ..core import Space, Violation

ASSUMPTIONS = ['chip layouts are those of mc/chips.py (transcribed chip documentation)',
               'distinct regions of one memory type are either disjoint, identical, bus views of each other or cut from '
               'boundary addresses; every region that is not an exact repetition or bus view is counted in full']


def windows(target):
    """All address windows: (start, end, type)."""
    out = []
    for name, prim, length, sec in chips.CHIPS[target]:
        for a in {prim, sec} - {0}:
            out.append((a, a + length, name))
    return sorted(set(out))


def section_for(target):
    """One small section in the first window, so that reports are not empty."""
    a, b, _ = windows(target)[0]
    lay = model.Layout('.dram0.data', a)
    lay.ins('.data.x', 4, 'esp-idf/a/liba.a', 'a.c.obj')
    return lay.out


def check_img(img, cli=False):
    mp = proj.put(os.path.join(sut.WDIR, 'p'), img)
    exp, warns = model.oracle(img)
    got, err = sut.get(mp)
    errs = []
    flat = ' '.join(err.split())
    want = {t: i['size'] for t, i in exp['memory_types'].items()}
    have = {t: i['size'] for t, i in got['memory_types'].items()}
    if want != have:
        errs.append(f'capacities {have}, expected {want}')
    named = [w[1] for w in warns if w[0] == 'region']
    for n, *_ in img.regions:
        said = f' memory region {n} ' in flat
        if said != (n in named):
            errs.append(f'region {n}: warned={said}, expected {n in named}')
    if cli:
        for flash in (False, True):
            r = sut.cli('--format', 'raw', '--show-unused', *(['--use-flash-size'] if flash else []), mp)
            if r.rc or r.exc:
                errs.append(f'command failed {r}')
                break
            have = {t: i['size'] for t, i in json.loads(r.out)['memory_types'].items()}
            w2 = {t: (0 if 'flash' in t.lower() and not flash else z) for t, z in want.items()}
            if have != w2:
                errs.append(f'use-flash-size={flash}: capacities {have}, expected {w2}')
    if errs:
        raise Violation('\n  '.join(errs) + f'\n{err}\n--- {img.target} regions\n' + '\n'.join(
            f'{n} {a:#x} {z:#x}' for n, a, z, _ in img.regions))
    return have


def candidates(target, rich):
    """Regions whose ends are at, just before or just after type boundaries."""
    ws = windows(target)
    cand = set()
    for i, (a, b, _) in enumerate(ws):
        ends = {b, b - 0x20, a + 0x1000} | ({b + 0x20} if rich else set())
        nxt = next((w for w in ws if w[0] == b), None)
        if nxt:
            ends |= {b + 0x40, nxt[1], nxt[1] + 0x40}
        for o in {a, a + 0x20} | ({a - 0x20, b} if rich else set()):
            for e in ends:
                if e > o:
                    cand.add((o, e - o))
        cand.add((a, 0))
        cand.add((b, 0))
        cand.add((a - 4, 8))
        cand.add((a - 0x20, b - a + 0x20))
        cand.add((b, 0x10))
        cand.add((a, b + 0x100 - a))
    return sorted(cand)


def seq_space(name, n, rich, targets, bounds):
    def build(c):
        t = c.choose('chip', targets)
        cs = candidates(t, rich)
        regs = []
        for i in range(n):
            r = c.choose(f'region{i}', [None] + cs)
            if r is None:
                break
            regs.append((f'seg{i}_x', r[0], r[1], 'rw'))
        return model.Img(t, regs, [section_for(t)])
    return Space(name, build, check_img, bounds=bounds, timeout=10)


def views(target):
    """For every dual mapped type: a few regions together with their bus views, repetitions and lengths."""
    out = []
    for name, prim, length, sec in chips.CHIPS[target]:
        for off, ln in ((0, length), (0x100, 0x800), (0x100, 0x900), (0x900, 0x800), (0, 0x100)):
            if off + ln > length:
                continue
            out.append((prim + off, ln))
            if sec and sec != prim:
                out.append((sec + off, ln))
    return sorted(set(out))


def view_space(n, targets, bounds):
    def build(c):
        t = c.choose('chip', targets)
        regs = []
        ws = [w for w in views(t)]
        first = c.choose('region0', ws)
        # further regions stay in the same memory type
        tn = model.type_at(t, first[0])[0]
        same = [w for w in ws if model.type_at(t, w[0])[0] == tn]
        regs.append(('seg0_x', first[0], first[1], 'rw'))
        for i in range(1, n):
            r = c.choose(f'region{i}', [None] + same)
            if r is None:
                break
            regs.append((f'seg{i}_x', r[0], r[1], 'rw'))
        return model.Img(t, regs, [section_for(t)])
    return Space('views', build, check_img, bounds=bounds)


def real_space(order, bounds):
    """The memory configuration ESP-IDF uses: every subset removed / duplicated / order rotated."""
    def build(c):
        t = c.choose('chip', sorted(chips.REGIONS))
        regs = list(chips.REGIONS[t])
        how = c.choose('change', ['none', 'reverse', 'foreign'] + [('drop', i) for i in range(len(regs))]
                       + [('dup', i) for i in range(len(regs))]
                       + [('swap', i, j) for i, j in itertools.combinations(range(len(regs)), 2)]
                       + [('shrink', i) for i in range(len(regs))] + [('noattr', i) for i in range(len(regs))])
        second = c.choose('second change', [None] + [('drop', i) for i in range(len(regs) - 1)]) if order > 1 else None
        for h in (how, second):
            if h == 'reverse':
                regs.reverse()
            elif h == 'foreign':
                regs.insert(1, ('foreign_seg', 0x10000000, 0x1000, 'rw'))
            elif h and h[0] == 'drop':
                regs.pop(h[1])
            elif h and h[0] == 'dup':
                n, a, z, at = regs[h[1]]
                regs.append(('copy_' + n, a, z, at))
            elif h and h[0] == 'swap':
                regs[h[1]], regs[h[2]] = regs[h[2]], regs[h[1]]
            elif h and h[0] == 'shrink':
                n, a, z, at = regs[h[1]]
                regs[h[1]] = (n, a, z // 2, at)
            elif h and h[0] == 'noattr':
                n, a, z, at = regs[h[1]]
                regs[h[1]] = (n, a, z, '')
        return model.Img(t, regs, [section_for(t)], wide=c.flag('64-bit addresses'))
    return Space('real', build, lambda i: check_img(i, cli=True), bounds=bounds)


def usage_space():
    """Capacity does not depend on how much of it is used: empty, partly, completely used and overflowing."""
    def build(c):
        t = c.choose('chip', sorted(chips.REGIONS))
        regs = list(chips.REGIONS[t])
        i = c.choose('region', list(range(len(regs))))
        n, a, z, at = regs[i]
        z = min(z, c.choose('length', (0x1000, 1 << 40)))
        regs[i] = (n, a, z, at)
        used = c.choose('used', ('nothing', 'part', 'all but one', 'all', 'more', 'twice'))
        used = {'nothing': 0, 'part': 4, 'all but one': z - 1, 'all': z, 'more': z + 8, 'twice': 2 * z}[used]
        outs = []
        if used > 0:
            lay = model.Layout(c.choose('section', ('.flash.rodata', '.dram0.bss')), a)
            lay.ins('.data.x', used, 'esp-idf/a/liba.a', 'a.c.obj')
            outs = [lay.out]
        return model.Img(t, regs, outs)
    return Space('usage', build, lambda i: check_img(i, cli=True),
                 bounds='13 chips x every region x 2 lengths x 6 usage levels, library and command line')


def spaces(tier):
    ts = sorted(chips.CHIPS)
    if tier == 'quick':
        return [usage_space(), real_space(1, '13 chips x every single region dropped/duplicated/swapped/shrunk, library and command line'),
                seq_space('boundaries-1', 1, True, ts, '13 chips x every single region cut at type boundaries'),
                seq_space('boundaries', 2, False, ts, '13 chips x all ordered pairs of regions cut at type boundaries'),
                view_space(3, ts, '13 chips x all ordered triples of regions and bus views inside one type')]
    return [usage_space(), real_space(2, '13 chips x all pairs of changes'),
            seq_space('boundaries-1', 1, True, ts, '13 chips x every single region cut at type boundaries'),
            seq_space('boundaries', 2, True, ts, '13 chips x all ordered pairs of regions (rich boundary set)'),
            seq_space('boundaries-3', 3, False, ['esp32s3', 'esp32c2', 'esp32h4'], 'all ordered triples for 3 chips'),
            view_space(4, ts, '13 chips x all ordered 4-tuples of regions and bus views inside one type')]
