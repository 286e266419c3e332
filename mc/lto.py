"""Debug information and project descriptions for link-time-optimised projects."""
from . import elfgen

CU, SUBP, VAR, BLOCK, NS, ITYPE = 0x11, 0x2e, 0x34, 0x0b, 0x39, 0x24
NAME, LOW_PC, LOCATION, COMP_DIR, ORIGIN, SIZE, EXTERNAL = 0x03, 0x11, 0x02, 0x1b, 0x31, 0x0b, 0x3f


def die(d, kind, name, addr, children=None, origin=None, block='block1'):
    attrs = [] if name is None else [(NAME, 0x08, name.encode() + b'\0')]
    if origin is not None:
        attrs.append((ORIGIN, 0x13, origin))
    if kind == 'func':
        return (SUBP, attrs + ([(LOW_PC, 0x01, d.addr(addr))] if addr is not None else []), children)
    if addr is None:
        return (VAR, attrs, children)
    return (VAR, attrs + [location(d, addr, block)], children)


def location(d, addr, block='block1'):
    """Location expressions have a form of their own since version 4; before, they are blocks."""
    loc = b'\x03' + d.addr(addr)
    if d.version >= 4:
        return (LOCATION, 0x18, elfgen.uleb(len(loc)) + loc)
    if block == 'block':
        return (LOCATION, 0x09, elfgen.uleb(len(loc)) + loc)
    form, size = {'block1': (0x0a, 1), 'block2': (0x03, 2), 'block4': (0x04, 4)}[block]
    return (LOCATION, form, d.num(len(loc), size) + loc)


def name_attr(d, name, form):
    if form == 'string':
        return (NAME, 0x08, name.encode() + b'\0')
    if form == 'strp':
        return (NAME, 0x0e, d.strp(name))
    return (NAME, 0x1f, d.line_strp(name))


def dwarf(units, version=4, dwarf64=False, form='string'):
    """units: [(source file name or None, [(kind, symbol name, address)])] -> callback for elfgen.image_elf."""
    def cb(w):
        d = elfgen.Dwarf(w, version, dwarf64)
        for name, syms in units:
            kids = [die(d, *s) for s in syms]
            attrs = [(COMP_DIR, 0x08, b'/p/build\0')]
            if name is not None:
                attrs.insert(0, name_attr(d, name, form))
            d.unit((CU, attrs, kids or None))
        d.attach()
    return cb


def description(components, target='esp32', stem='app', build_dir='/p/build'):
    """components: {name: (source directory, archive path relative to the build directory or None)}"""
    return {'app_elf': stem + '.elf', 'target': target, 'build_dir': build_dir, 'project_path': '/p',
            'build_component_info': {n: {'dir': d, 'file': f'{build_dir}/{f}' if f else ''}
                                     for n, (d, f) in components.items()}}
