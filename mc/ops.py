"""Histories of operations on a real grid next to the reference model, explored depth first and exhaustively."""
import copy
import os
import shutil
import tempfile

import numpy as np

from . import env
from . import world as W
from .core import Violation, guarded, full, digest
from bathygrid.convenience import load_grid


NAME = 'grid [a-c] 50% cells_1.0 \u00e9.data'   # any name of a folder will do: nothing may read a pattern or a layer out of it


class Ctx:
    """a live grid, its folder, its model"""

    def __init__(self, spec, world, disk=False, base=None):
        self.spec = spec
        self.wname = world
        self.world = W.WORLDS[world] if isinstance(world, str) else world
        self.model = W.Model(spec)
        self.folder = ''
        self.base = base
        if disk:
            self.base = base or tempfile.mkdtemp(dir=env.scratch_root())
            self.folder = os.path.join(self.base, NAME)
        self.grid = spec.create(self.folder)
        self.last = None        # settings of the last gridding
        self.fresh = False      # nothing changed since the last gridding
        self.touched = set()    # leaf squares with changed points since the last gridding
        self.saved = None

    def leafsize(self):
        return self.spec.tile if self.spec.kind == 'sr' else self.spec.sub

    def pts(self, name):
        return self.spec.pts(self.world[name])

    def _touch(self, arr):
        s = self.leafsize()
        for p in arr:
            self.touched.add((W.fdiv(float(p['x']), s), W.fdiv(float(p['y']), s)))

    def enabled(self, op):
        k = op[0]
        if k == 'add':
            return op[1] not in self.model.held
        if k == 'rm':
            return op[1] in self.model.held
        if k == 'grid':
            if not self.model.held:
                return False
            o = gridop(op)
            if self.grid.grid_algorithm and self.grid.grid_algorithm != o['alg'] and not o['clear']:
                return False
            if o['opt'] == 'update':
                # an update is defined for unchanged settings
                return self.last is not None and all(self.last[x] == o[x] for x in ('alg', 'res', 'auto'))
            return True
        if k == 'reload':
            return bool(self.folder) and bool(self.model.held)
        return True

    def do(self, op):
        k = op[0]
        if k == 'add':
            arr = self.pts(op[1])
            self.grid.add_points(arr, op[1], ['file_' + op[1]], 26917, 'waterline', progress_bar=self.spec.backend == 'numpy')
            self.model.add(op[1], self.pts(op[1]))
            self._touch(arr)
            self.fresh = False
        elif k == 'rm':
            self.grid.remove_points(op[1], progress_bar=self.spec.backend == 'numpy')
            self._touch(self.model.held[op[1]])
            self.model.remove(op[1])
            self.fresh = False
        elif k == 'grid':
            o = gridop(op)
            ret = self.grid.grid(o['alg'], o['res'], clear_existing=o['clear'], auto_resolution_mode=o['auto'] or 'depth', regrid_option=o['opt'], progress_bar=self.spec.backend == 'numpy')
            self.returned = [float(r) for r in ret]
            self.last = {x: o[x] for x in ('alg', 'res', 'auto')}
            self.fresh = True
            self.touched = set()
        elif k == 'reload':
            self.grid = load_grid(self.folder)
        else:
            raise ValueError(op)

    def key(self):
        return (W.state_digest(self.grid), tuple(sorted(self.model.held)), repr(self.last), self.fresh, tuple(sorted(self.touched)),
                W.tree_digest(self.folder) if self.folder else b'')

    def snapshot(self):
        b = None
        if self.folder:
            b = tempfile.mkdtemp(dir=self.base)
            shutil.copytree(self.folder, os.path.join(b, 'g'))
        return (copy.deepcopy(self.grid), self.model.clone(), self.last, self.fresh, set(self.touched), b)

    def restore(self, s):
        self.grid = copy.deepcopy(s[0])
        self.model = s[1].clone()
        self.last, self.fresh, self.touched = s[2], s[3], set(s[4])
        if self.folder:
            shutil.rmtree(self.folder, ignore_errors=True)
            shutil.copytree(os.path.join(s[5], 'g'), self.folder)

    def drop(self, s):
        if s[5]:
            shutil.rmtree(s[5], ignore_errors=True)

    def close(self):
        if self.base:
            shutil.rmtree(self.base, ignore_errors=True)


def gridop(op):
    """['grid', alg, res or None, 'full'|'update', auto mode, clear]"""
    op = list(op) + [None] * (6 - len(op))
    return {'alg': op[1], 'res': op[2], 'opt': op[3] or 'full', 'auto': op[4], 'clear': bool(op[5])}


def prefixes(alphabet, n, enabled0=None):
    """all sequences of n symbols that respect add-before-remove, used to split a tree over tasks"""
    out = [[]]
    for _ in range(n):
        nxt = []
        for h in out:
            for op in alphabet:
                held = set()
                gridded = False
                for o in h:
                    if o[0] == 'add':
                        held.add(o[1])
                    elif o[0] == 'rm':
                        held.discard(o[1])
                    elif o[0] == 'grid':
                        gridded = True
                if op[0] == 'add' and op[1] in held:
                    continue
                if op[0] == 'rm' and op[1] not in held:
                    continue
                if op[0] in ('grid', 'reload') and not held:
                    continue
                nxt.append(h + [op])
        out = nxt
    return out


def explore(part, ctx, prefix, alphabet, depth, check, after=None, dedupe=True):
    """run prefix, then every continuation of up to depth operations; check(ctx, op, history) after every operation.

    A state reached again with no more steps left than before is not expanded a second time; it is still checked."""
    seen = {}
    history = []

    def run_op(op):
        before = after and after(ctx, op)
        ctx.do(op)
        part.transitions += 1
        check(ctx, op, list(history) + [op], before)

    def node(left):
        if full(part):
            return
        k = ctx.key()
        part.state(k)
        if dedupe:
            if seen.get(k, -1) >= left:
                part.count('merged')
                return
            seen[k] = left
        if left == 0:
            part.executions += 1
            return
        todo = [op for op in alphabet if ctx.enabled(op)]
        if not todo:
            part.executions += 1
            return
        s = ctx.snapshot()
        for i, op in enumerate(todo):
            if i:
                ctx.restore(s)
            case = {'spec': ctx.spec.json(), 'world': ctx.wname, 'disk': bool(ctx.folder), 'history': history + [op]}
            if guarded(part, case, run_op, op):
                history.append(op)
                node(left - 1)
                history.pop()
            if full(part):
                break
        ctx.drop(s)

    for op in prefix:
        if not ctx.enabled(op):
            return
        case = {'spec': ctx.spec.json(), 'world': ctx.wname, 'disk': bool(ctx.folder), 'history': history + [op]}
        if not guarded(part, case, run_op, op):
            return
        history.append(op)
    part.sample({'spec': ctx.spec.json(), 'first operations': list(history), 'then': 'every continuation of {} operations'.format(depth)})
    node(depth)
