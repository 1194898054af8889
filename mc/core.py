"""Running tasks on all cores, collecting what they covered, and reporting.

A check is a list of tasks (function name + JSON-able arguments).  A task explores a closed part of the space
completely and returns a Part.  A violation holds everything needed to run it again: task, arguments, case.
"""
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import sys
import time
import traceback

from . import env


class Violation(Exception):
    """the property does not hold; case = JSON-able description of the failing case"""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.msg = msg
        self.case = case


class Part:
    """what one task covered"""

    def __init__(self):
        self.states = set()      # digests of distinct states
        self.transitions = 0     # operations executed on the real code
        self.executions = 0      # complete runs (histories, schedules, inputs) of the real code
        self.checks = 0          # comparisons with the oracle
        self.outcomes = set()    # digests of distinct observations
        self.samples = []
        self.violations = []
        self.extra = {}

    def state(self, x):
        self.states.add(digest(x))

    def outcome(self, x):
        self.outcomes.add(digest(x))

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(x)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def fail(self, msg, case):
        self.violations.append({'message': msg, 'case': case})


def digest(x):
    if isinstance(x, bytes):
        return hashlib.blake2b(x, digest_size=8).digest()
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


MAX_VIOLATIONS_PER_TASK = 3


def guarded(part, case, fn, *args):
    """run one case; a Violation or any exception that escapes the code under check fails the case.

    Returns True if the case passed."""
    try:
        fn(*args)
        return True
    except Violation as e:
        part.fail(e.msg, e.case if e.case is not None else case)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        part.fail('{}: {} [{}]'.format(type(e).__name__, str(e)[:300], where), case)
    return False


def full(part):
    return len(part.violations) >= MAX_VIOLATIONS_PER_TASK


def apart(fn, *args):
    """run fn in a process of its own that nothing ran in before, return its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn(*args))
            except BaseException:
                out = (False, traceback.format_exc(limit=-6))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if not raw:
        raise RuntimeError('a process of the check ended without an answer')
    ok, val = pickle.loads(raw)
    if not ok:
        raise Violation('failed: ' + val)
    return val


_TASKS = {}


def task(fn):
    _TASKS[fn.__module__ + ':' + fn.__name__] = fn
    return fn


def _run(job):
    idx, name, args = job
    t0 = time.time()
    part = Part()
    with env.quiet():
        try:
            _TASKS[name](part, **args)
        except Violation as e:
            part.fail(e.msg, e.case)
        except Exception:
            part.fail('task failed: ' + traceback.format_exc(limit=-6), None)
    part.extra['task_seconds'] = round(time.time() - t0, 2)
    return idx, part


def procs():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


class Run:
    """one run of one check"""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.total = Part()
        self.jobs = []
        self.bounds = {}
        self.assumptions = []
        self.exhaustive = True
        self.violations = []   # (task, args, violation)
        self.slowest = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, fn, **args):
        self.jobs.append((fn.__module__ + ':' + fn.__name__, args))

    def bound(self, **kw):
        self.bounds.update(kw)

    def execute(self):
        jobs = [(i, n, a) for i, (n, a) in enumerate(self.jobs)]
        env.scratch_root()
        # the order of the jobs has no influence on what is covered; the seed varies it, so that nothing depends on it
        if self.seed and jobs:
            k = self.seed % len(jobs)
            jobs = jobs[k:] + jobs[:k]
        if procs() == 1 or len(jobs) == 1:
            results = map(_run, jobs)
            self._collect(results)
        else:
            ctx = mp.get_context('fork')
            with ctx.Pool(procs(), maxtasksperchild=None) as pool:
                self._collect(pool.imap_unordered(_run, jobs, chunksize=1))

    def _collect(self, results):
        for idx, part in results:
            name, args = self.jobs[idx]
            t = self.total
            t.states |= part.states
            t.outcomes |= part.outcomes
            t.transitions += part.transitions
            t.executions += part.executions
            t.checks += part.checks
            secs = part.extra.pop('task_seconds', 0)
            self.slowest.append((secs, name.split(':')[1], {k: v for k, v in args.items() if not isinstance(v, (list, dict)) or len(str(v)) < 80}))
            for k, v in part.extra.items():
                t.extra[k] = t.extra.get(k, 0) + v
            if len(t.samples) < 6:
                t.samples.extend(part.samples[:1])
            for v in part.violations:
                self.violations.append((name, args, v))


def replay_dir():
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    return d


def known_findings():
    out = []
    p = os.path.join(env.VERIF, 'known_findings.json')
    if os.path.exists(p):
        out = json.load(open(p)).get('findings', [])
    return out


def matches_known(prop, v):
    for f in known_findings():
        if f.get('property') == prop and f.get('case') is not None and f['case'] == v['case']:
            return f
    return None


def finish(run, level, rule, technique_note=''):
    """write evidence, print the verdict, return the exit code"""
    t = run.total
    known, new = [], []
    for name, args, v in run.violations:
        f = matches_known(run.prop, v)
        if f:
            known.append(f)
        else:
            new.append((name, args, v))
    # simplest first
    new.sort(key=lambda nav: (len(json.dumps(nav[2]['case'], default=str)), json.dumps(nav[2]['case'], default=str)))
    if level == 'model_checking':
        cov = {'states': len(t.states), 'transitions': t.transitions, 'traces_validated_against_impl': t.executions}
        if t.outcomes:
            cov['distinct_outcomes'] = len(t.outcomes)
    else:
        cov = {'evaluations': t.executions, 'distinct_nontrivial': len(t.outcomes) if t.outcomes else len(t.states)}
        if t.transitions:
            cov['operations_executed'] = t.transitions
    cov.update({'oracle_comparisons': t.checks, 'rule': rule, 'samples': t.samples[:6] or ['none'],
                'exhaustive': run.exhaustive, 'bounds': run.bounds, 'tasks': len(run.jobs)})
    cov.update({k: v for k, v in t.extra.items()})
    run.slowest.sort(key=lambda s: -s[0])
    cov['slowest_tasks'] = ['{}s {} {}'.format(*s) for s in run.slowest[:3]]
    ev = {'property': run.prop, 'tier': run.tier, 'seed': run.seed, 'level': level, 'coverage': cov,
          'assumptions': run.assumptions, 'wall_s': round(time.time() - run.t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', run.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for f in known:
        if f['what'] not in seen:
            seen.add(f['what'])
            print('KNOWN-FINDING: property={} {}'.format(run.prop, f['what']))
    print('{} {}: {} tasks, {} states, {} transitions, {} executions, {} comparisons, {} distinct outcomes, {} violations, {:.1f}s'.format(
        run.prop, run.tier, len(run.jobs), len(t.states), t.transitions, t.executions, t.checks, len(t.outcomes), len(new), ev['wall_s']))
    if t.executions == 0 and not new:
        print('nothing was explored')
        return 3
    for i, (name, args, v) in enumerate(new[:5]):
        path = os.path.join(replay_dir(), '{}_{}.json'.format(run.prop, i))
        with open(path, 'w') as f:
            json.dump({'property': run.prop, 'tier': run.tier, 'task': name, 'args': args, 'case': v['case'], 'message': v['message']}, f, indent=1, default=str)
        print('VIOLATION property={} replay={}'.format(run.prop, os.path.relpath(path, env.VERIF)))
        print('  ' + v['message'][:1500])
        print('  case: ' + json.dumps(v['case'], default=str)[:800])
    return 1 if new else 0
