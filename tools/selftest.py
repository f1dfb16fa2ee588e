"""Differential test of the interpreter of pyvc against CPython.

Each function of selftest_cases.py runs on each of its inputs in CPython and in the interpreter, twice: with the concrete
inputs, and with unknown inputs that are only assumed to be equal to them.  What CPython does must be among the behaviours that
the interpreter considers (else a proof could be wrong: UNSOUND, exit code 1).  Behaviours that it considers and CPython does
not have (imprecise) and operations it refuses (unsupported) only make proofs fail; they are counted.
"""
import copy
import os
import sys
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
import z3  # noqa: E402

import selftest_cases as cases  # noqa: E402
from pyvc import api, core, lib  # noqa: E402
from pyvc.interp import Source  # noqa: E402


def real(name, args):
    args = copy.deepcopy(args)
    try:
        return 'ok', getattr(cases, name)(*args)
    except Exception as e:
        return 'raise', type(e).__name__


def host(h, v):
    """Python value -> value of the interpreter."""
    if isinstance(v, list):
        return core.VList(h.ctx, [host(h, x) for x in v])
    if isinstance(v, dict):
        return core.VDict(h.ctx, {k: host(h, x) for k, x in v.items()})
    return v


TYPES = {str: 'str', int: 'int', bool: 'bool'}


def pinned(h, v):
    """Unknown value assumed to be equal to v."""
    if type(v) in TYPES:
        x = h.fresh(TYPES[type(v)], 'x')
        h.assume(h.eq(x, v))
        return x
    if isinstance(v, list) and v and all(type(x) is int for x in v):
        x = h.fresh(('list', 'int'), 'x')
        h.assume(core.enc(h.ctx, x, ('list', 'int')) == core.enc(h.ctx, host(h, v), ('list', 'int')))
        return x
    return host(h, v)


def same(h, a, b):
    """Formula (or bool): the interpreted value a is the Python value b."""
    I = h.I
    a = I.force(a)
    if isinstance(b, (list, tuple)):
        if isinstance(a, (tuple, list)):
            a = list(a)
        elif isinstance(a, core.VList) or not isinstance(a, core.SV):
            if isinstance(b, tuple):
                return False
            n = lib.b_len(I, [a], {})
            c = [h.eq(n, len(b))]
            if not possible(h, c[0]):
                return False
            h.assume(c[0])
            return z3.And([term(same(h, lib.getitem(I, a, i), x)) for i, x in enumerate(b)] + [z3.BoolVal(True)])
        else:
            return False
        if len(a) != len(b):
            return False
        return z3.And([term(same(h, x, y)) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if isinstance(b, dict):
        if not isinstance(a, core.VDict):
            return False
        keys = lib.iterate(I, a)
        if not isinstance(keys, list) or len(keys) != len(b):
            return False
        return z3.And([term(same(h, k, y)) for k, y in zip(keys, b)] +
                      [term(same(h, lib.getitem(I, a, k), b[k])) for k in b] + [z3.BoolVal(True)])
    if isinstance(b, bool) or isinstance(a, bool) or b is None or a is None:
        if b is None or a is None:
            return a is b
        if core.type_of(a) != core.type_of(b):
            return False
    return h.eq(a, b)


def term(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def possible(h, c):
    s = z3.Solver()
    s.set('timeout', 3000)
    for p in h.ctx.pc:
        s.add(p)
    s.add(term(c))
    return core.confirmed(h.ctx.run, s.check(), s.assertions()) != z3.unsat


def one(job):
    name, args, mode = job
    kind, want = real(name, args)
    found = {'sound': False, 'other': 0}

    def task(h):
        h.I.source.overlay['selftest_cases'] = cases.__file__
        make = host if mode == 'concrete' else pinned
        vals = [make(h, v) for v in args]
        try:
            r = h.I.call(h.I.module('selftest_cases').vars[name], vals, {})
            got = 'ok'
        except core.PyRaise as e:
            r, got = e.exc, 'raise'
        if not possible(h, True):
            return
        if got == kind == 'raise':
            c = getattr(r.cls, '__name__', getattr(r.cls, 'name', None)) == want
        elif got == kind == 'ok':
            c = same(h, r, want)
        else:
            c = False
        if possible(h, c):
            found['sound'] = True
            if possible(h, z3.Not(term(c))):
                found['other'] += 1
        else:
            found['other'] += 1
        h.check('done', True)
    run = api.run_task(api.Task(name, task), Source(os.path.join(ROOT, 'tools')), feas_ms=1000, prove_ms=3000)
    if run.fatal or getattr(run, 'unsupported', None):
        return job, 'unsupported', str(run.fatal or run.unsupported)
    if not found['sound']:
        return job, 'UNSOUND', f'CPython: {kind} {want!r}'
    return job, 'imprecise' if found['other'] else 'exact', ''


def safe(job):
    try:
        return one(job)
    except Exception as e:
        return job, 'crash', f'{type(e).__name__}: {e}'


def main():
    only = sys.argv[1:]
    jobs = [(n, a, m) for n, c in cases.CASES.items() for a in c for m in ('concrete', 'unknown') if not only or n in only]
    count, notes = {}, {}
    with Pool() as pool:
        for job, status, text in pool.imap_unordered(safe, jobs, chunksize=8):
            count[status] = count.get(status, 0) + 1
            if status != 'exact':
                notes.setdefault((status, job[0], job[2]), []).append((job[1], text))
    for (status, name, mode), v in sorted(notes.items()):
        if status != 'imprecise' or only:
            print(status, name, mode, len(v), str(v[0])[:200])
    print(count)
    sys.exit(1 if count.get('UNSOUND') else 0)


if __name__ == '__main__':
    main()
