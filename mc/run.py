"""Entry point:  python -m mc.run C01 quick|thorough [--replay FILE]"""
import importlib
import json
import os
import sys
import traceback


def known_findings(prop):
    fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    out = []
    try:
        with open(fn) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f'known: property={prop} '):
                    out.append(line.split(' ', 2)[2])
    except OSError:
        pass
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    from . import core, sut
    try:
        try:
            sut.setup()
        except BaseException:
            # The package does not import: no property about its behaviour can hold.
            runner = core.Runner(prop, tier, 'model_checking', [])
            sp = core.Space('import', lambda c: None, lambda s: None)
            runner.results.append((sp, {'states': 1, 'transitions': 0, 'traces': 1, 'leaves': 1, 'pruned': 0,
                                        'dups': 0, 'outcomes': {}, 'samples': [], 'wall_s': 0, 'complete': False}))
            runner.violations.append((sp, {'index': 0, 'trace': [], 'labels': [], 'scenario': 'import esp_idf_size',
                                           'msg': traceback.format_exc()}))
            return runner.finish([])
        mod = importlib.import_module(f'.checks.{prop.lower()}', __package__)
        spaces = mod.spaces(tier)
        if len(sys.argv) > 4 and sys.argv[3] == '--replay':
            with open(sys.argv[4]) as f:
                rep = json.load(f)
            sut.worker_init(0)
            if rep['tier'] != tier:
                spaces = mod.spaces(rep['tier'])
            space = next(s for s in spaces if s.name == rep['space'])
            c = core.Chooser(rep['trace'], space.budget)
            scenario = space.build(c)
            print(space.describe(scenario))
            msg, _ = core.run_case(space, scenario)
            msg2, _ = core.run_case(space, scenario)
            print('replay is deterministic' if msg == msg2 else 'REPLAY NOT DETERMINISTIC')
            print(msg or 'no violation')
            return 1 if msg else 0
        runner = core.Runner(prop, tier, getattr(mod, 'LEVEL', 'model_checking'), getattr(mod, 'ASSUMPTIONS', []),
                             init=sut.worker_init)
        only = os.environ.get('MC_SPACE')
        for space in spaces:
            if only and only != space.name:
                continue
            runner.run(space)
            if core.STOP == 1 and runner.violations:    # development: the first violation is enough
                break
            if any(v['msg'].endswith(core.HANG) for _, v in runner.violations):
                break       # every further space would spend its time waiting
        return runner.finish(known_findings(prop))
    finally:
        sut.teardown()


if __name__ == '__main__':
    sys.exit(main())
