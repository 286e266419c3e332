"""Projects with many entries at one level: what holds for a handful of sections, archives, object files or symbols must not
depend on how many there are."""
from . import expect, family, imgs
from .core import Prune, Space

DIMS = ('sections', 'archives', 'objects', 'symbols')
QUICK = (12, 33, 65, 130)
FULL = (12, 33, 65, 101, 130, 257, 513)


def image(dim, n, alt=False):
    """n entries in the given dimension.  alt: the other side of a difference (changed, missing and additional entries)."""
    def size(i):
        s = 4 * (1 + (i * 7) % 31)
        return s + (8 if i % 3 == 0 else -2 if i % 3 == 1 else 0) if alt else s
    idx = [i for i in range(n + 3 if alt else n) if not (alt and i % 10 == 4)]
    L = 'esp-idf/a/liba.a'
    if dim == 'sections':
        cont = [(f'.iram{i}.text', [(L, 'x.c.obj', f'.text.f{i}', size(i))]) for i in idx]
    elif dim == 'archives':
        cont = [('.iram0.text', [(f'esp-idf/c{i}/lib{i}.a', 'x.c.obj', f'.text.f{i}', size(i)) for i in idx])]
    elif dim == 'objects':
        cont = [('.iram0.text', [(L, f'd{i % 7}/o{i}.c.obj', f'.text.f{i}', size(i)) for i in idx])]
    else:
        cont = [('.iram0.text', [(L, 'x.c.obj', f'.text.f{i}', size(i)) for i in idx])]
    cont.append(('.dram0.data', [(L, 'x.c.obj', '.data.d', 0x24), ('esp-idf/b/libb.a', 'y.c.obj', '.data.e', 0x10)]))
    return imgs.autosyms(imgs.image(cont))


def space(reps, fmts, names=('abbrev', 'full'), diffs=(False, True), elfs=(False,), tweaks=({},), counts=QUICK, dims=DIMS,
          after=None, name='large'):
    def build(c):
        dim, n = c.choose('dimension', dims), c.choose('entries', counts)
        if dim == 'sections' and n > 257:
            raise Prune()       # every entry of a report is given a table of all sections, which takes minutes
        return (dim, n, c.choose('report', reps), c.choose('format', fmts),
                c.choose('names', names), c.choose('diff', diffs), c.choose('elf', elfs), c.choose('options', range(len(tweaks))))

    def chk(sc):
        dim, n, rep, fmt, nm, diff, elf, tw = sc
        img = image(dim, n)
        ref = image(dim, n, True) if diff else None
        mp = family.put('cur', img, elf=elf)
        rp = family.put('ref', ref, elf=elf) if diff else None
        o = expect.O(fmt=fmt, report=rep, abbrev=nm != 'full', unify=nm == 'unify', **tweaks[tw])
        if rep == 'details':
            o.details = 'liba.a'
        r, m = expect.verify(o, mp, img, rp, ref, elf, elf)
        if after:
            after(o, r, m, img, ref)
        return r.out
    return Space(name, build, chk, timeout=300, bounds=f'{len(counts)} counts up to {max(counts)} of {"/".join(dims)} x {len(reps)} reports x '
                                          f'{len(fmts)} formats x {len(names)} name modes x diff x {len(tweaks)} option sets')
