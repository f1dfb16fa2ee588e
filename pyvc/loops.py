"""Loops over sequences of unknown length: cut by inferred, checked invariants; specification folds."""
import z3

from . import core
from .core import (Choice, HeapList, Infeasible, PathEnd, PyRaise, SV, SymSeq, Unsupported, VDict, VList,
                   VObj, VRef, VSet, dec, enc, join_types, opt_dt, sort_of, type_of)


class Fold:
    """Specification fold: state after the first i elements of a sequence, given by init and step.

    Each component is an uninterpreted function of (sequence, captured values, i), unfolded on demand.
    ``absorb(state)`` (proved separately: such a state is never changed by a step) lets an early exit of
    the code conclude about the rest of the sequence.
    """

    def __init__(self, I, name, n, elem, key_terms, comps, init, step, absorb=None):
        self.I, self.name, self.n, self.elem = I, name, n, elem
        self.key_terms = key_terms
        self.comps = comps             # list of (name, type)
        self.step, self.absorb = step, absorb
        self.done = set()
        self.fns = {}
        for c, T in comps:
            self.fns[c] = z3.Function(f'F:{name}.{c}/' + ','.join(str(t.sort()) for t in key_terms),
                                      *[t.sort() for t in key_terms], z3.IntSort(), sort_of(T))
        for (c, T), v in zip(comps, init):
            I.ctx.define(self.term(c, z3.IntVal(0)), enc(I.ctx, v, T))
        self.id = name + ':' + ','.join(t.sexpr() for t in key_terms)

    def term(self, c, i):
        return self.fns[c](*self.key_terms, i)

    def state(self, i):
        return tuple(dec(self.I.ctx, self.term(c, i), T) for c, T in self.comps)

    def total(self):
        return self.state(self.n)

    def unfold(self, i):
        i = z3.simplify(i)
        if i.sexpr() in self.done:
            return
        self.done.add(i.sexpr())
        x = self.elem(i)
        new = self.step(self.I, self.state(i), x, SV('int', i))
        j = z3.simplify(i + 1)
        for (c, T), v in zip(self.comps, new):
            v = v if _enc_ok(self.I.ctx, v, T) else self.I.force(v)
            self.I.ctx.define(self.term(c, j), enc(self.I.ctx, v, T))

    def after_early(self, i):
        """The code left the loop during iteration i."""
        if self.absorb is None:
            return
        self.unfold(i)
        j = z3.simplify(i + 1)
        if self.I.truth(self.absorb(self.I, self.state(j))):
            for c, T in self.comps:
                self.I.ctx.define(self.term(c, self.n), self.term(c, j))


def copy_fold(I, it):
    """The elements seen so far, which at the end are the whole list."""
    from . import lib
    e, T = it.seq

    def step(I, st, x, i):
        o = lib.list_copy(I, st[0])
        lib.list_append(I, o, x)
        return (o,)
    f = Fold(I, 'items', it.n, it.elem, [e], [('all', ('list', T))], (VList(I.ctx, [], T=T),), step)
    I.ctx.define(f.term('all', it.n), e)
    return f


def _enc_ok(ctx, v, T):
    try:
        enc(ctx, v, T)
        return True
    except Unsupported:
        return False


class LoopInfo:
    def __init__(self):
        self.mods = {}         # location -> type (None: unknown yet)
        self.dead = {}         # location -> set of candidate names that failed
        self.skip = set()      # locations that cannot be encoded
        self.sym = False


def retry(run):
    """Candidates refuted while some changed location was taken as constant get another chance."""
    for info in run.loopinfo.values():
        for loc, dead in info.dead.items():
            if loc not in ('ghosts', 'bounds'):
                info.dead[loc] = {'same'} & dead


class Active:
    def __init__(self, info, start, run):
        self.info, self.start, self.run = info, start, run

    def note(self, loc, obj=None):
        if loc not in self.info.mods:
            self.info.mods[loc] = None
            self.run.changed = True
            retry(self.run)


MISSING = object()


def read_loc(I, loc):
    k = loc[0]
    if k == 'heap':
        return ('heap', I.ctx.heap_array(loc[1], loc[2]))
    if k == 'var':
        fr = I.ctx.frames.get(loc[1])
        return fr.vars.get(loc[2], MISSING) if fr is not None else MISSING
    o = I.ctx.objs.get(loc[1])
    if o is None:
        return MISSING
    if loc[2] is None:
        return o
    return o.fields.get(loc[2], MISSING)


def write_loc(I, loc, v):
    k = loc[0]
    if k == 'heap':
        I.ctx.heap[(loc[1], loc[2])] = v
    elif k == 'var':
        I.ctx.frames[loc[1]].vars[loc[2]] = v
    else:
        o = I.ctx.objs[loc[1]]
        if loc[2] is None:
            o.raw_set(v.get())
            for a in ('K', 'V', 'T', 'order'):
                if hasattr(v, a):
                    setattr(o, a, getattr(v, a))
            if isinstance(o, VDict):
                o.order = None
        else:
            o.fields[loc[2]] = v


def clear_loc(I, loc):
    if loc[0] == 'var':
        fr = I.ctx.frames.get(loc[1])
        if fr is not None:
            fr.vars.pop(loc[2], None)


def loc_type(I, v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'heap' and z3.is_expr(v[1]):
        return ('raw', v[1].sort())
    return type_of(v)


def loc_term(I, v, T):
    if isinstance(T, tuple) and T[0] == 'raw':
        return v[1]
    if not _enc_ok(I.ctx, v, T):
        v = I.force(v)
    return enc(I.ctx, v, T)


def has_none(T):
    return T is None or isinstance(T, tuple) and any(has_none(x) for x in T[1:] if not z3.is_sort(x)) \
        and T[0] != 'opaque'


def candidates(I, loc, T, val, i, entry, folds):
    """Candidate invariants of a location: name -> formula."""
    out = {}
    raw = isinstance(T, tuple) and T[0] == 'raw'
    s = val.sort() if val is not None else T[1] if raw else sort_of(T)
    if entry is not None:
        out['same'] = Expr(entry)
    for f in folds:
        for c, CT in f.comps:
            cs = sort_of(CT)
            nm = f'{f.name}.{c}'
            t = f.term(c, i)
            if cs == s:
                out['eq:' + nm] = Expr(t)
                if not raw and isinstance(T, tuple) and T[0] == 'list' and entry is not None:
                    out['app:' + nm] = Expr(seqcat(entry, t))
                if T in ('str', 'bytes') and entry is not None:
                    out['cat:' + nm] = Expr(seqcat(entry, t))
                if T == 'bool':
                    out['neq:' + nm] = Expr(z3.Not(t))
                    if entry is not None:
                        out['or:' + nm] = Expr(z3.Or(entry, t))
                if T == 'int' and entry is not None:
                    out['add:' + nm] = Expr(entry + t)
            elif CT == 'int' and T == 'bool':
                out['pos:' + nm] = Expr(t > 0)
            elif isinstance(CT, tuple) and CT[0] == 'opt' and T == 'bool':
                out['issome:' + nm] = Expr(opt_dt(CT[1])[5](t))
                out['isnone:' + nm] = Expr(opt_dt(CT[1])[4](t))
            elif isinstance(CT, tuple) and CT[0] == 'opt' and isinstance(T, tuple) and \
                    T == CT[1]:
                out['val:' + nm] = lambda val, t=t, CT=CT: z3.Implies(opt_dt(CT[1])[5](t),
                                                                     val == opt_dt(CT[1])[3](t))
            elif isinstance(T, tuple) and T[0] == 'opt' and T[1] == CT:
                out['some:' + nm] = Expr(opt_dt(T[1])[2](t))
            elif isinstance(T, tuple) and isinstance(CT, tuple) and T[0] == 'list' and CT[0] == 'set' and \
                    T[1] == CT[1]:
                def setc(val, t=t, T=T):
                    return z3.And(I.ctx.seq_set(SymSeq(val, T[1])) == t,
                                  (z3.Length(val) > 0) == (t != z3.K(sort_of(T[1]), z3.BoolVal(False))))
                out['set:' + nm] = setc
    if T == 'int':
        if entry is not None:
            out['idx'] = Expr(z3.simplify(entry + i))
        out['ge0'] = lambda val: val >= 0
    for tf in I.templates:
        out.update(tf(I, loc, T, val, i, entry))
    return out


class Expr:
    """Candidate of the form: the value is this term."""

    def __init__(self, e):
        self.e = e

    def __call__(self, val):
        return val == self.e


def seqcat(a, b):
    ps = [p for p in core.flat_concat(a) + core.flat_concat(b)
          if not core.is_empty(p) and not (z3.is_string_value(p) and p.as_string() == '')]
    if not ps:
        return a
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def read_frame_reg(ctx, key, fr):
    ctx.frames[key] = fr


def sym_for(I, node, it, body, orelse):
    from .interp import _Break, _Continue, _Return
    ctx, run = I.ctx, I.run
    nk = node if isinstance(node, tuple) else (type(node).__name__, getattr(node, 'lineno', 0),
                                               getattr(node, 'col_offset', id(type(node))),
                                               _target(node))
    key = ('for', nk) + tuple(ctx.stack)
    info = run.loopinfo.setdefault(key, LoopInfo())
    for t, base, cond in I.filters if it.seq is not None else ():
        if t.eq(it.seq[0]):
            # the elements of another list that meet a condition: a loop over that list passing over the rest
            from . import lib
            whole, orig = lib.seq_iter(I, base, it.seq[1]), body

            def body(x, orig=orig, cond=cond):
                if I.truth(cond(I, x)):
                    orig(x)
            it = whole
            break
    n = it.n
    folds = [f for f in I.folds if f.n.eq(n)]
    if it.seq is not None and any(T == ('list', it.seq[1]) for T in info.mods.values()):
        folds.append(copy_fold(I, it))
    locs = {}
    for loc in list(info.mods):
        if loc in info.skip:
            continue
        v0 = read_loc(I, loc)
        if v0 is MISSING:
            locs[loc] = None
            continue
        T = note_type(I, info, loc, v0)
        if T is None:
            continue
        locs[loc] = loc_term(I, v0, T)
    entry = dict(locs)
    check(I, info, entry, entry, z3.IntVal(0), folds)
    if not ctx.branch(z3.simplify(n > 0)):
        # no iterations: the state is unchanged
        for f in folds:
            ctx.assume(n == 0)
        orelse()
        return
    check_ghosts(I, info, z3.IntVal(0), n, folds)
    i = z3.Int(ctx.fresh_name('i'))
    if ctx.branch(z3.Bool(ctx.fresh_name('iteration'))):
        ctx.assume(z3.And(i >= 0, i < n))
        havoc(I, info, locs, entry, i, folds)
        ghosts(I, info, i, n, folds)
        for f in folds:
            f.unfold(i)
        act = Active(info, ctx.tick(), run)
        ctx.loops.append(act)
        early = None
        try:
            x = it.elem(i)
            body(x)
        except _Continue:
            pass
        except (_Break, _Return, PyRaise) as e:
            early = e
        finally:
            ctx.loops.remove(act)
        if early is not None:
            for f in folds:
                f.after_early(i)
            from .interp import _Break as B
            if isinstance(early, B):
                return
            raise early
        end = {}
        for loc in list(info.mods):
            if loc in info.skip:
                continue
            v1 = read_loc(I, loc)
            if v1 is MISSING:
                continue
            T = note_type(I, info, loc, v1)
            if T is None or loc not in entry or entry[loc] is None:
                continue
            end[loc] = loc_term(I, v1, T)
        if not run.changed:
            check(I, info, entry, end, z3.simplify(i + 1), folds)
            check_ghosts(I, info, z3.simplify(i + 1), n, folds)
        raise PathEnd()
    havoc(I, info, locs, entry, n, folds)
    ghosts(I, info, n, n, folds)
    orelse()


def _target(node):
    t = getattr(node, 'target', None)
    return (t.lineno, t.col_offset) if t is not None else None


def note_type(I, info, loc, v):
    """Join of the types seen at a location (None: cannot be encoded yet)."""
    T0 = info.mods.get(loc)
    try:
        T1 = loc_type(I, v)
        if T1 is None:
            info.skip.add(loc)
            I.run.changed = True
            return None
        T = join_types(T0, T1)
        sort_of(T) if not has_none(T) and T[0] != 'raw' else None
    except Unsupported:
        info.skip.add(loc)
        I.run.changed = True
        return None
    if T != T0:
        info.mods[loc] = T
        if not has_none(T) or has_none(T0):
            I.run.changed = True
    return None if has_none(T) else T


def havoc(I, info, locs, entry, i, folds):
    ctx = I.ctx
    for loc in list(info.mods):
        if loc in info.skip:
            v = read_loc(I, loc)
            if loc[0] == 'var':
                clear_loc(I, loc)
            else:
                write_loc_unknown(I, loc)
            continue
        T = info.mods[loc]
        if has_none(T):
            continue
        if loc not in locs or locs[loc] is None:
            clear_loc(I, loc)
            continue
        dead = info.dead.setdefault(loc, set())
        cands = candidates(I, loc, T, None, i, entry[loc], folds)
        cands = {nm: fm for nm, fm in cands.items() if nm not in dead}
        e = None
        for nm, fm in cands.items():
            if isinstance(fm, Expr):
                e = ctx.rewrite(fm.e)
                break
        if e is None:
            e = z3.Const(ctx.fresh_name('H'), T[1]) if T[0] == 'raw' else \
                ctx.fresh_term(T, str(loc[-1]) if loc[-1] else 'content')
        write_loc(I, loc, e if T[0] == 'raw' else dec(ctx, e, T))
        for nm, fm in cands.items():
            g = z3.simplify(fm(e))
            if not z3.is_true(g):
                ctx.assume(g)


def ghost_cands(I, i, n, folds):
    """Candidate invariants that involve no location: the folds alone, the contracts' ghosts, the index."""
    out = {}
    for f in folds:
        for c, T in f.comps:
            if T in ('bool', 'int') or isinstance(T, tuple) and T[0] == 'opt':
                out[f'init:{f.name}.{c}'] = f.term(c, i) == I.ctx.rewrite(f.term(c, z3.IntVal(0)))
    for g in I.ghosts:
        out.update(g(I, i, n))
    if n is not None:
        out['never completes'] = i < n
    return out


def ghosts(I, info, i, n, folds):
    for f in I.instances:
        f(I, i, n)
    dead = info.dead.setdefault('ghosts', set())
    for nm, t in ghost_cands(I, i, n, folds).items():
        if nm not in dead:
            I.ctx.assume(z3.simplify(t))


def check_ghosts(I, info, i, n, folds):
    if I.ctx.pos < I.ctx.prefix_len:
        return
    dead = info.dead.setdefault('ghosts', set())
    for nm, t in ghost_cands(I, i, n, folds).items():
        if nm not in dead and not I.ctx.entails(t, I.run.cand_ms):
            dead.add(nm)
            I.run.changed = True
            if I.run.debug:
                print('drop ghost', nm, 'at', i)


class Poison:
    """Value lost at a loop cut (cannot be encoded): any use is unsupported."""


def write_loc_unknown(I, loc):
    o = I.ctx.objs.get(loc[1]) if loc[0] == 'obj' else None
    if o is not None and loc[2] is not None:
        o.fields[loc[2]] = Poison()
    else:
        raise Unsupported(f'loop changes {loc}')


def check(I, info, entry, cur, i, folds):
    """Drop the candidates that do not hold for the current values at index i."""
    ctx, run = I.ctx, I.run
    if ctx.pos < ctx.prefix_len:
        return
    wrong = False
    for loc, val in cur.items():
        # a location that changes: first forget that, as the other candidates are then easier to show
        if val is None or entry[loc] is None:
            continue
        dead = info.dead.setdefault(loc, set())
        if 'same' not in dead and not val.eq(entry[loc]) and not ctx.entails(val == entry[loc], run.cand_ms):
            dead.add('same')
            run.changed = wrong = True
    if wrong:
        retry(run)
        return
    for loc, val in cur.items():
        if val is None:
            continue
        T = info.mods[loc]
        dead = info.dead.setdefault(loc, set())
        for nm, fm in candidates(I, loc, T, val, i, entry[loc], folds).items():
            if nm in dead:
                continue
            if not ctx.entails(fm(val), run.cand_ms):
                dead.add(nm)
                run.changed = True
                if run.debug:
                    print('drop', loc[-1], nm, 'at', i)


def while_loop(I, node, cond, body, orelse):
    from .interp import _Break, _Continue, _Return
    ctx, run = I.ctx, I.run
    key = ('while', node.lineno, node.col_offset) + tuple(ctx.stack)
    info = run.loopinfo.setdefault(key, LoopInfo())
    if not info.sym:
        count = 0
        while True:
            p0 = ctx.pos
            c = cond()
            if ctx.pos != p0:
                info.sym = True
                run.changed = True
                raise PathEnd()
            if not c:
                orelse()
                return
            try:
                body()
            except _Break:
                return
            except _Continue:
                pass
            count += 1
            if count > 60:
                raise Unsupported('while loop too long to unroll')
    folds = list(I.folds)
    entry = {}
    for loc in list(info.mods):
        if loc in info.skip:
            continue
        v0 = read_loc(I, loc)
        if v0 is MISSING:
            entry[loc] = None
            continue
        T = note_type(I, info, loc, v0)
        if T is not None:
            entry[loc] = loc_term(I, v0, T)
    # ghost counter of iterations; candidate bounds k <= n for each fold
    check(I, info, entry, entry, z3.IntVal(0), folds)
    k = z3.Int(ctx.fresh_name('k'))
    ctx.assume(k >= 0)
    bounds = info.dead.setdefault('bounds', set())
    check_ghosts(I, info, z3.IntVal(0), None, folds)
    havoc(I, info, entry, entry, k, folds)
    ghosts(I, info, k, None, folds)
    for f in folds:
        if f.id not in bounds:
            ctx.assume(k <= f.n)
    act = Active(info, ctx.tick(), run)
    ctx.loops.append(act)
    try:
        c = cond()
    finally:
        ctx.loops.remove(act)
    if not c:
        for f in folds:
            if f.id not in bounds and ctx.entails(k >= f.n):
                ctx.assume(k == f.n)
        orelse()
        return
    inside = [f for f in folds if f.id not in bounds and ctx.entails(k < f.n)]
    for f in inside:
        f.unfold(k)
    ctx.loops.append(act)
    early = None
    try:
        body()
    except _Continue:
        pass
    except (_Break, _Return, PyRaise) as e:
        early = e
    finally:
        ctx.loops.remove(act)
    if early is not None:
        for f in inside:
            f.after_early(k)
        if isinstance(early, _Break):
            return
        raise early
    end = {}
    for loc in list(info.mods):
        if loc in info.skip:
            continue
        v1 = read_loc(I, loc)
        if v1 is MISSING:
            continue
        T = note_type(I, info, loc, v1)
        if T is None or entry.get(loc) is None:
            continue
        end[loc] = loc_term(I, v1, T)
    if not run.changed:
        check(I, info, entry, end, z3.simplify(k + 1), folds)
        check_ghosts(I, info, z3.simplify(k + 1), None, folds)
        if ctx.pos >= ctx.prefix_len:
            for f in folds:
                if f.id not in bounds and f not in inside:
                    bounds.add(f.id)
                    run.changed = True
    raise PathEnd()
