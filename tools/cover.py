#!/opt/venv/bin/python
"""cover.py [PROPERTY...]: which lines of bathygrid no check executes (a help for writing checks, decides nothing)"""
import ast
import importlib
import json
import os
import sys
import time
import types

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, env  # noqa: E402

BASE = os.path.join(env.REPO, 'bathygrid') + os.sep
hit = set()
mon = sys.monitoring
mon.use_tool_id(3, 'cover')


def line(code, no):
    if code.co_filename.startswith(BASE):
        hit.add((code.co_filename[len(BASE):], no))
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
_orig = core._run


def _run(job):
    idx, part = _orig(job)
    part.extra_hits = sorted(hit)
    return idx, part


_run.__module__ = 'mc.core'
core._run = _run
total = set()
_collect = core.Run._collect


def collect(self, results):
    def tee():
        for idx, part in results:
            total.update(map(tuple, part.extra_hits))
            yield idx, part
    _collect(self, tee())


core.Run._collect = collect


def executable(path):
    code = compile(open(path).read(), path, 'exec')
    out = set()

    def walk(c):
        if c.co_name != '<module>':
            out.update(l for _, _, l in c.co_lines() if l and l != c.co_firstlineno)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    walk(code)
    return out


names = sys.argv[1:] or ['C%02d' % i for i in range(1, 100) if os.path.exists(os.path.join(env.VERIF, 'mc', 'checks', 'c%02d.py' % i))]
for n in names:
    mod = importlib.import_module('mc.checks.' + n.lower())
    r = core.Run(n, 'quick', 1)
    t = time.time()
    try:
        mod.plan(r)
        r.execute()
    finally:
        env.scratch_cleanup()
    print(n, round(time.time() - t, 1), 's', len(r.violations), 'violations', len(total), 'lines', flush=True)
for f in sorted(os.listdir(BASE)):
    if f.endswith('.py') and f not in ('__init__.py',):
        ex = executable(BASE + f)
        miss = sorted(ex - {l for g, l in total if g == f})
        src = open(BASE + f).read().split('\n')
        fn = {}
        for node in ast.walk(ast.parse('\n'.join(src))):
            if isinstance(node, ast.FunctionDef):
                for l in range(node.lineno, node.end_lineno + 1):
                    fn[l] = node.name
        print('{}: {} of {} lines not executed'.format(f, len(miss), len(ex)))
        for l in miss:
            print('   {:5d} {:32s} {}'.format(l, fn.get(l, ''), src[l - 1].strip()[:110]))
