"""Materialise a model image as a project directory."""
import json
import os
import shutil

from . import elfgen, model


def put(dirname, img, stem='app', elf=False, proj_desc=None, sdkconfig=None, text=None, elf_bytes=None, **elf_kw):
    """Write MAP (and ELF, project_description.json, sdkconfig.json) into dirname; returns the map path."""
    if os.path.isdir(dirname):
        shutil.rmtree(dirname)
    os.makedirs(dirname)
    mp = os.path.join(dirname, stem + '.map')
    with open(mp, 'w', encoding='utf-8') as f:
        f.write(model.render(img) if text is None else text)
    if elf:
        with open(os.path.join(dirname, stem + '.elf'), 'wb') as f:
            f.write(elfgen.image_elf(img, **elf_kw) if elf_bytes is None else elf_bytes)
        if proj_desc is None:
            proj_desc = {'app_elf': stem + '.elf', 'target': img.target, 'build_dir': dirname,
                         'build_component_info': {}}
    if proj_desc is not None:
        with open(os.path.join(dirname, 'project_description.json'), 'w') as f:
            f.write(proj_desc if isinstance(proj_desc, str) else json.dumps(proj_desc))
    if sdkconfig is not None:
        os.makedirs(os.path.join(dirname, 'config'))
        with open(os.path.join(dirname, 'config', 'sdkconfig.json'), 'w') as f:
            f.write(sdkconfig if isinstance(sdkconfig, str) else json.dumps(sdkconfig))
    return mp
