#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('VERIF_NO_REEXEC'):
    os.environ['VERIF_NO_REEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    from mc import env, core
    mod = importlib.import_module('mc.checks.' + a.prop.lower())
    seed = int(os.environ.get('VERIF_SEED') or 0)
    run = core.Run(a.prop, a.tier, seed)
    try:
        if a.replay:
            job = json.load(open(a.replay))
            run.jobs = [(job['task'], job['args'])]
            run.execute()
            ok = 0
            for name, args, v in run.violations:
                print('REPRODUCED' if v['case'] == job['case'] else 'ALSO', v['message'])
                print('  case: ' + json.dumps(v['case'], default=str))
                ok = 1
            if not ok:
                print('not reproduced')
            return ok
        mod.plan(run)
        run.execute()
        return core.finish(run, mod.LEVEL, mod.RULE)
    finally:
        env.scratch_cleanup()


if __name__ == '__main__':
    sys.exit(main())
