"""Exhaustive bounded explorer.

A *space* is a choice program ``build(c)``: every call of ``c.choose(label, options)`` is one
nondeterministic step of the model, the value returned at the end is the scenario (a complete model
execution).  The explorer enumerates every choice sequence (depth first, simplest option first), optionally
bounded by the number of deviations from the default (index 0) option.  Every distinct scenario is replayed
against the real implementation by ``check(scenario)``, which raises Violation if the implementation and the
reference model disagree.

states       distinct choice prefixes (nodes of the execution tree) visited
transitions  choice edges taken
traces       complete, distinct scenarios replayed against the implementation
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('MC_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Violation(Exception):
    """The property does not hold on this scenario."""


class Prune(Exception):
    """Raised by a build program: this choice sequence is not a well formed model execution."""


class CaseTimeout(BaseException):
    """The implementation did not finish within the per case limit."""


class Chooser:
    __slots__ = ('prefix', 'trace', 'labels', 'sizes', 'budget', 'spent')

    def __init__(self, prefix, budget=None):
        self.prefix = prefix
        self.trace = []
        self.labels = []
        self.sizes = []
        self.budget = budget
        self.spent = 0

    def choose(self, label, options, free=False):
        """Nondeterministic choice.  ``free`` choices do not count as deviations."""
        n = len(options)
        if n == 0:
            raise Prune()
        pos = len(self.trace)
        if self.budget is not None and not free and self.spent >= self.budget:
            n = 1  # only the default option is left
        if pos < len(self.prefix):
            idx = self.prefix[pos]
            if idx >= n:
                raise RuntimeError(f'replay diverged at {label}: {idx} >= {n}')
        else:
            idx = 0
        self.trace.append(idx)
        self.labels.append(label)
        self.sizes.append(n)
        if idx and not free:
            self.spent += 1
        return options[idx]

    def flag(self, label, **kw):
        return self.choose(label, (False, True), **kw)

    def subset(self, label, items, **kw):
        return [it for it in items if self.choose(f'{label}:{it}', (False, True), **kw)]


def enumerate_space(build, budget=None):
    """Yield (trace, labels, scenario, new_nodes, pruned) for every choice sequence, depth first."""
    prefix = []
    first = True
    while True:
        c = Chooser(prefix, budget)
        pruned = False
        scenario = None
        try:
            scenario = build(c)
        except Prune:
            pruned = True
        # nodes that were not visited by the previous execution
        common = len(prefix) - 1 if not first else -1
        new_nodes = len(c.trace) - max(common, 0) + (1 if first else 0)
        yield c.trace, c.labels, scenario, new_nodes, pruned
        first = False
        i = len(c.trace) - 1
        while i >= 0 and c.trace[i] + 1 >= c.sizes[i]:
            i -= 1
        if i < 0:
            return
        prefix = c.trace[:i] + [c.trace[i] + 1]


class Space:
    def __init__(self, name, build, check, budget=None, timeout=30, key=None, describe=None, bounds=''):
        self.name = name
        self.build = build
        self.check = check
        self.budget = budget
        self.timeout = timeout
        self.key = key or repr
        self.describe = describe or repr
        self.bounds = bounds


def _alarm(_sig, _frm):
    raise CaseTimeout()


HANG = '(non-termination)'


def run_case(space, scenario):
    """Run one scenario; return (None | message, outcome). A missing result is only believed if it is missing twice,
    the second time with twice the time: the machine may have stalled."""
    msg, outcome = _run_case(space, scenario, space.timeout)
    if msg is not None and (msg.endswith(HANG) or 'TimeoutExpired' in msg):
        msg, outcome = _run_case(space, scenario, 2 * space.timeout)
    return msg, outcome


def _run_case(space, scenario, timeout):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        outcome = space.check(scenario)
        return None, outcome
    except Violation as e:
        return str(e), None
    except CaseTimeout:
        return f'no result within {timeout} s {HANG}', None
    except MemoryError:
        return 'implementation ran out of memory', None
    except RecursionError:
        return 'implementation exceeded the recursion limit', None
    except Exception:  # the implementation (or an oracle fed with a wrong shape) failed
        return 'unexpected exception:\n' + traceback.format_exc(), None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _limit_memory():
    try:
        import resource
        lim = 3 * 1024 ** 3
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass


STRIDE = int(os.environ.get('MC_STRIDE', '1'))
STOP = int(os.environ.get('MC_STOP', '3'))
COVER = os.environ.get('MC_COVER')      # development: record the executed lines of the package
_lines = set()


def _worker(space, rank, n, wfd, init, stop_after):
    _limit_memory()
    if COVER:
        _start_cover()
    if init:
        init(rank)
    res = {'states': 0, 'transitions': 0, 'traces': 0, 'leaves': 0, 'pruned': 0, 'dups': 0,
           'violations': [], 'outcomes': {}, 'samples': []}
    seen = set()
    idx = 0
    for trace, labels, scenario, new_nodes, pruned in enumerate_space(space.build, space.budget):
        res['states'] += new_nodes
        if pruned:
            res['pruned'] += 1
            continue
        res['leaves'] += 1
        key = hashlib.blake2b(space.key(scenario).encode('utf-8', 'surrogateescape'), digest_size=12).digest()
        if key in seen:
            res['dups'] += 1
            continue
        seen.add(key)
        # MC_STRIDE thins the space for development tools (mutation sweeps); such a run is never reported as exhaustive.
        mine = idx % STRIDE == 0 and idx // STRIDE % n == rank
        idx += 1
        if not mine:
            continue
        msg, outcome = run_case(space, scenario)
        res['traces'] += 1
        if outcome is not None:
            o = hashlib.blake2b(str(outcome).encode('utf-8', 'surrogateescape'), digest_size=6).hexdigest()
            res['outcomes'][o] = res['outcomes'].get(o, 0) + 1
        if len(res['samples']) < 1:
            res['samples'].append({'trace': trace, 'scenario': str(space.describe(scenario))[:1500]})
        if msg is not None:
            res['violations'].append({'index': idx - 1, 'trace': list(trace), 'labels': list(labels), 'msg': msg,
                                      'scenario': str(space.describe(scenario))[:6000]})
            if len(res['violations']) >= stop_after or msg.endswith(HANG):
                break
    if COVER:
        _dump_cover()
    with os.fdopen(wfd, 'w') as f:
        json.dump(res, f)


def _start_cover():
    m = sys.monitoring
    m.use_tool_id(3, 'cover')

    def line(code, ln):
        if '/esp_idf_size/' in code.co_filename:
            _lines.add((os.path.basename(code.co_filename), ln))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)


def _dump_cover():
    with open(f'{COVER}.{os.getpid()}', 'w') as f:
        json.dump(sorted(_lines), f)


def explore(space, procs=8, init=None, stop_after=3):
    """Explore a space with forked workers (each enumerates the tree, executes its share)."""
    sys.stdout.flush()
    sys.stderr.flush()
    children = []
    for rank in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                _worker(space, rank, procs, w, init, stop_after)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        children.append((pid, r))
    out = []
    for pid, r in children:
        with os.fdopen(r) as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        try:
            out.append(json.loads(data))
        except ValueError:
            out.append({'crash': status})
    total = {'states': 0, 'transitions': 0, 'traces': 0, 'leaves': 0, 'pruned': 0, 'dups': 0,
             'violations': [], 'outcomes': {}, 'samples': []}
    complete = True
    for r in out:
        if 'crash' in r:
            # A worker died (memory limit, interpreter crash): the implementation took the process down.
            total['violations'].append({'index': 1 << 60, 'trace': [], 'labels': [],
                                        'msg': f'worker process died, wait status {r["crash"]}', 'scenario': ''})
            complete = False
            continue
        total['traces'] += r['traces']
        total['states'] = max(total['states'], r['states'])
        total['leaves'] = max(total['leaves'], r['leaves'])
        total['pruned'] = max(total['pruned'], r['pruned'])
        total['dups'] = max(total['dups'], r['dups'])
        total['violations'] += r['violations']
        for k, v in r['outcomes'].items():
            total['outcomes'][k] = total['outcomes'].get(k, 0) + v
        total['samples'] += r['samples']
    total['transitions'] = max(total['states'] - 1, 0)
    total['violations'].sort(key=lambda v: v['index'])
    total['complete'] = complete and not total['violations'] and STRIDE == 1
    return total


class Runner:
    """Collects the spaces of one property, runs them, writes evidence, prints the verdict."""

    def __init__(self, prop, tier, level, assumptions, procs=None, init=None):
        self.prop = prop
        self.tier = tier
        self.level = level
        self.assumptions = list(assumptions)
        self.init = init
        self.procs = procs or int(os.environ.get('MC_PROCS', '0')) or min(8, os.cpu_count() or 1)
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.results = []
        self.violations = []
        self.samples = []

    def run(self, space):
        t = time.time()
        r = explore(space, self.procs, self.init, STOP)
        r['wall_s'] = round(time.time() - t, 2)
        self.results.append((space, r))
        for v in r['violations']:
            self.violations.append((space, v))
        print(f'[{self.prop}] space {space.name}: states={r["states"]} transitions={r["transitions"]} '
              f'traces={r["traces"]} distinct_outcomes={len(r["outcomes"])} dups={r["dups"]} '
              f'pruned={r["pruned"]} violations={len(r["violations"])} {r["wall_s"]}s', flush=True)
        return r

    def finish(self, known):
        os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
        cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'distinct_outcomes': 0,
               'pruned_choice_sequences': 0, 'merged_duplicate_states': 0, 'exhaustive': True,
               'spaces': [], 'samples': []}
        for space, r in self.results:
            cov['states'] += r['states']
            cov['transitions'] += r['transitions']
            cov['traces_validated_against_impl'] += r['traces']
            cov['distinct_outcomes'] += len(r['outcomes'])
            cov['pruned_choice_sequences'] += r['pruned']
            cov['merged_duplicate_states'] += r['dups']
            cov['exhaustive'] = cov['exhaustive'] and r['complete']
            cov['spaces'].append({'name': space.name, 'bounds': space.bounds, 'deviation_bound': space.budget,
                                  'states': r['states'], 'traces': r['traces'],
                                  'distinct_outcomes': len(r['outcomes']), 'wall_s': r['wall_s'],
                                  'complete': r['complete']})
            cov['samples'] += [{'space': space.name, **s} for s in r['samples'][:2]]
        cov['samples'] = cov['samples'][:8]
        new = []
        for i, (space, v) in enumerate(self.violations):
            hit = next((k for k in known if k in v['msg']), None)
            if hit:
                print(f'KNOWN-FINDING: property={self.prop} {hit}')
                continue
            new.append((space, v))
        if new:
            for i, (space, v) in enumerate(new[:5]):
                path = os.path.join(EVIDENCE, 'replay', f'{self.prop}-{i}.json')
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'tier': self.tier, 'space': space.name, 'trace': v['trace'],
                               'labels': v['labels'], 'message': v['msg'], 'scenario': v['scenario']}, f, indent=1)
                if i == 0:
                    print(f'--- first counterexample (space {space.name}) ---')
                    for lab, idx in zip(v['labels'], v['trace']):
                        if idx:
                            print(f'   {lab} -> option {idx}')
                    print(v['scenario'][:3000])
                    print('---')
                    print(v['msg'][:6000])
                print(f'VIOLATION property={self.prop} replay={path}')
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(EVIDENCE, f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f'[{self.prop}] {self.tier}: states={cov["states"]} traces={cov["traces_validated_against_impl"]} '
              f'outcomes={cov["distinct_outcomes"]} violations={len(new)} wall={ev["wall_s"]}s')
        return 1 if new else 0
