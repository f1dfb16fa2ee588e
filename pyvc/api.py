"""Verification tasks: harness functions over the interpreted code, and their obligations."""
import ast
import inspect
import os
import time

import z3

from . import core, lib, models
from .core import (Choice, ExcV, Infeasible, Native, PyRaise, Run, SV, SymSeq, Unsupported, VDict, VList,
                   VObj, VRef, VSet, dec, enc, opt_dt, sort_of, type_of)
from .interp import Bound, ClassV, Frame, FuncV, Gen, Interp, NativeClass, Source, SymIter
from .loops import Fold

REPO = os.environ.get('VERIF_REPO', '/repo')
SCHEMAS = {'POEntry': models.POENTRY_SCHEMA, 'POFile': {'fpath': 'str'}}


class H:
    """Harness handle given to a task: thin layer over the interpreter of one path."""

    def __init__(self, ctx, source, spec, env):
        self.ctx = ctx
        e = {'open': models.file_open, 'attr:POEntry': models.poentry_attr}
        e.update(env or {})
        self.I = Interp(ctx, source, e)
        self.specmod = spec
        self.calls = {}
        ctx.I = self.I
        models.fs(self.I)
        models.environ(self.I)
        for n in 'stdout', 'stderr', 'stdin_s':
            models.stream(self.I, n)

    # values
    def fresh(self, T, hint='v'):
        return self.ctx.fresh(T, hint)

    def assume(self, c):
        self.ctx.assume(self.term(c))

    def term(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if z3.is_expr(c):
            return c
        t = self.I.truth_term(c)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def eq(self, a, b):
        t = self.I.eq(a, b)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def truth(self, v):
        return self.I.truth(v)

    def sym(self, term, T):
        return dec(self.ctx, term, T)

    def enc(self, v, T):
        if not _ok(self.ctx, v, T):
            v = self.I.force(v)
        return enc(self.ctx, v, T)

    # program
    def func(self, qual):
        """Function, method or class of the repository by dotted name ('mdpo.text.and_join')."""
        parts = qual.split('.')
        for n in range(len(parts), 0, -1):
            name = '.'.join(parts[:n])
            if self.I.source.path(name):
                m = self.I.module(name)
                o = m
                for p in parts[n:]:
                    o = o.vars[p] if hasattr(o, 'vars') and p in o.vars else None
                    if o is None:
                        raise Unsupported(f'{qual} not found')
                return o
        raise Unsupported(f'{qual} not found')

    def call(self, f, *a, **k):
        name = f
        if isinstance(f, str):
            f = self.func(f)
        return self._call(name if isinstance(name, str) else getattr(name, 'name', type(name).__name__), f, a, k)

    def _call(self, name, f, a, k):
        # frames, objects and loops of different calls have different keys
        n = self.calls[name] = self.calls.get(name, 0) + 1
        self.ctx.stack.append(('call', name, n))
        try:
            return self.I.call(f, a, k)
        finally:
            self.ctx.stack.pop()

    def outcome(self, f, *a, **k):
        """('ok', value) or ('raise', exception)."""
        try:
            r = self.call(f, *a, **k)
            return 'ok', self.I.force(r) if not isinstance(r, Choice) else r
        except PyRaise as e:
            return 'raise', e.exc

    def method(self, obj, name, *a, **k):
        return self._call(name, self.I.getattr(obj, name), a, k)

    def outcome_method(self, obj, name, *a, **k):
        try:
            return 'ok', self.method(obj, name, *a, **k)
        except PyRaise as e:
            return 'raise', e.exc

    def instance(self, cls, fields):
        if isinstance(cls, str):
            cls = self.func(cls)
        return VObj(self.ctx, cls, dict(fields))

    def spec(self, fn, *a, **k):
        return self.I.call(fn, a, k)

    # folds
    def fold(self, name, over, comps, init, step, absorb=None, caps=()):
        """Specification fold over a symbolic list (or text)."""
        I = self.I
        it = lib.iterate(I, over)
        if not isinstance(it, SymIter):
            raise Unsupported('fold over a concrete list')
        key = [seq_term(I, over)]
        for c in caps:
            t = type_of(c)
            if t is None or t == 'none':
                continue
            key.append(enc(self.ctx, c, t))
        f = Fold(I, name, it.n, it.elem, key, comps, init, step, absorb)
        for g in I.folds:
            if g.id == f.id:
                return g
        I.folds.append(f)
        return f

    def fold_value(self, *a, **k):
        return self.fold(*a, **k).total()

    # obligations
    def check(self, name, cond):
        self.ctx.prove(name, self.term(cond) if not isinstance(cond, bool) else cond)

    def check_eq(self, name, a, b):
        self.check(name, self.eq(a, b))

    def list_of(self, v):
        """VList of a returned list, generator, tuple."""
        return lib.to_list(self.I, v)


def seq_term(I, v):
    v = I.force(v)
    if isinstance(v, SV):
        return v.e
    if isinstance(v, VList):
        return v.get().e
    if isinstance(v, Gen):
        return v.lst.get().e
    if isinstance(v, lib.DictView):
        v = v.d
    if isinstance(v, VDict):
        return v.order.e
    if isinstance(v, VObj):
        return v.cls.methods['__iter__'](I, v).get().e
    raise Unsupported('fold over this value')


def _ok(ctx, v, T):
    try:
        enc(ctx, v, T)
        return True
    except Unsupported:
        return False


class Task:
    def __init__(self, name, fn, env=None, functions=(), max_paths=20000, normal=True):
        self.name, self.fn, self.env, self.functions = name, fn, env, functions
        self.max_paths, self.normal = max_paths, normal


def run_task(task, source, spec=None, feas_ms=400, prove_ms=10000, deadline=None, debug=False, cross=None):
    run = Run(SCHEMAS, feas_ms=feas_ms, prove_ms=prove_ms, max_paths=task.max_paths, deadline=deadline)
    run.debug = debug
    run.cross = cross
    t0 = time.time()
    fatal = None

    def body(ctx):
        h = H(ctx, source, spec, task.env)
        try:
            task.fn(h)
        except PyRaise as e:
            ctx.notes.append(repr(e.exc))
            ctx.prove('no exception escapes', False)
            raise Infeasible() from None
    try:
        run.explore(body)
    except Unsupported as e:
        fatal = str(e)
    except RecursionError:
        fatal = 'recursion'
    run.wall = time.time() - t0
    run.fatal = fatal
    return run


def summarize(run):
    """Per obligation: proved / failed / unknown."""
    out = {}
    for name, rs in run.results.items():
        bad = [r for r in rs if r['status'] != 'proved']
        out[name] = dict(instances=len(rs), status='proved' if not bad else bad[0]['status'],
                         how=sorted({r['how'] for r in rs}), t=round(sum(r['t'] for r in rs), 3),
                         bad=bad[:2])
    return out
