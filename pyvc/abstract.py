"""Abstraction of path conditions for the solver: strings and sequences become uninterpreted sorts.

Every model of the original formulas gives a model of the abstracted ones, so an unsatisfiable abstraction
means that the original formulas are unsatisfiable.  (The converse does not hold: the string and sequence
theories are tried next.)
"""
import z3

from . import core

K = z3
_SORT = {}
_TERM = {}
_KEEP = []
_LITS = {}
_LITCODE = z3.Function('a:literal', z3.DeclareSort('A:Str'), z3.IntSort())


class Cannot(Exception):
    pass


def A(s):
    """Abstract sort."""
    k = s.get_id()
    if k in _SORT:
        return _SORT[k]
    if s.kind() == z3.Z3_SEQ_SORT:
        r = z3.DeclareSort('A:Str' if s.eq(z3.StringSort()) else 'A:' + s.sexpr().replace('|', ''))
    elif s.kind() == z3.Z3_ARRAY_SORT:
        r = z3.ArraySort(A(s.domain()), A(s.range()))
    elif s.kind() == z3.Z3_DATATYPE_SORT:
        changed = False
        for i in range(s.num_constructors()):
            c = s.constructor(i)
            for j in range(c.arity()):
                if not A(c.domain(j)).eq(c.domain(j)):
                    changed = True
        if not changed:
            r = s
        else:
            d = z3.Datatype('A:' + s.name())
            for i in range(s.num_constructors()):
                c = s.constructor(i)
                d.declare('A:' + c.name(), *[('A:' + s.accessor(i, j).name(), A(c.domain(j)))
                                             for j in range(c.arity())])
            r = d.create()
    else:
        r = s
    _SORT[k] = r
    _KEEP.append((s, r))
    return r


def _dt(decl, src):
    """Constructor, recognizer or accessor of the abstract datatype."""
    r = A(src)
    if r.eq(src):
        return None
    for i in range(src.num_constructors()):
        if src.constructor(i).eq(decl):
            return r.constructor(i)
        if src.recognizer(i).eq(decl):
            return r.recognizer(i)
        for j in range(src.constructor(i).arity()):
            if src.accessor(i, j).eq(decl):
                return r.accessor(i, j)
    raise Cannot('datatype operation')


def _fn(name, args, rng):
    return z3.Function(name, *[a.sort() for a in args], rng)(*args)


class Abs:
    """Translation; ``facts`` receives the axioms of the terms met."""

    def __init__(self):
        self.seen = set()

    def term(self, e, facts):
        r, fs = translate(e)
        for f in fs:
            k = f.get_id()
            if k not in self.seen:
                self.seen.add(k)
                facts.append(f)
        return r


def translate(e):
    """(abstract term, axioms needed)."""
    k = e.get_id()
    if k in _TERM:
        return _TERM[k][1], _TERM[k][2]
    todo = [e]
    while todo:
        t = todo[-1]
        i = t.get_id()
        if i in _TERM:
            todo.pop()
            continue
        if z3.is_quantifier(t):
            if any(not A(t.var_sort(j)).eq(t.var_sort(j)) for j in range(t.num_vars())) or _has_seq(t.body()):
                raise Cannot('quantifier')
            _TERM[i] = (t, t, ())
            todo.pop()
            continue
        if not z3.is_app(t):
            raise Cannot('variable')
        miss = [c for c in t.children() if c.get_id() not in _TERM]
        if miss:
            todo.extend(miss)
            continue
        todo.pop()
        fs = {}
        args = []
        for c in t.children():
            _, a, cf = _TERM[c.get_id()]
            args.append(a)
            for f in cf:
                fs[f.get_id()] = f
        new = []
        r = build(t, args, new)
        for f in new:
            fs[f.get_id()] = f
        _TERM[i] = (t, r, tuple(fs.values()))
    return _TERM[k][1], _TERM[k][2]


def _has_seq(e):
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        if not A(t.sort()).eq(t.sort()):
            return True
        todo.extend(t.children())
    return False


def _empty(s):
    return z3.Const('a:empty', s)


def cat(parts, s, facts):
    parts = [p for p in parts if not p.eq(_empty(s))]
    if not parts:
        return _empty(s)
    r = parts[-1]
    for p in reversed(parts[:-1]):
        n = z3.Function('a:cat', s, s, s)(p, r)
        ln = z3.Function('a:len', s, z3.IntSort())
        facts.append(ln(n) == ln(p) + ln(r))
        facts += [ln(p) >= 0, ln(r) >= 0]
        r = n
    return r


def uncat(t):
    out = []
    while z3.is_app(t) and t.decl().name() == 'a:cat':
        out += uncat(t.arg(0))
        t = t.arg(1)
    return out + [t]


def build(t, args, facts):
    d = t.decl()
    k = d.kind()
    s = A(t.sort())
    if z3.is_string_value(t):
        txt = t.as_string()
        if txt == '':
            ln = z3.Function('a:len', s, z3.IntSort())
            facts.append(ln(_empty(s)) == 0)
            facts.append(_LITCODE(_empty(s)) == 0)
            return _empty(s)
        if txt not in _LITS:
            _LITS[txt] = len(_LITS) + 1
        c = z3.Const('a:"' + txt + '"', s)
        facts.append(_LITCODE(c) == _LITS[txt])
        facts.append(z3.Function('a:len', s, z3.IntSort())(c) == len(core.unescape_z3(txt)))
        return c
    if k == z3.Z3_OP_SEQ_EMPTY:
        facts.append(z3.Function('a:len', s, z3.IntSort())(_empty(s)) == 0)
        return _empty(s)
    if k == z3.Z3_OP_SEQ_CONCAT:
        parts = []
        for a in args:
            parts += uncat(a)
        return cat(parts, s, facts)
    if k == z3.Z3_OP_SEQ_UNIT:
        r = _fn('a:unit', args, s)
        facts.append(z3.Function('a:len', s, z3.IntSort())(r) == 1)
        facts.append(z3.Function('a:ununit', s, args[0].sort())(r) == args[0])
        return r
    if k == z3.Z3_OP_SEQ_LENGTH:
        x = args[0]
        r = z3.Function('a:len', x.sort(), z3.IntSort())(x)
        facts.append(r >= 0)
        facts.append((r == 0) == (x == _empty(x.sort())))
        facts.append(z3.Function('a:len', x.sort(), z3.IntSort())(_empty(x.sort())) == 0)
        return r
    if k == z3.Z3_OP_UNINTERPRETED:
        if all(a.eq(c) for a, c in zip(args, t.children())) and s.eq(t.sort()):
            return t
        return _fn('a:' + d.name(), args, s) if args else z3.Const('a:' + d.name(), s)
    if not args:
        if t.sort().kind() == z3.Z3_DATATYPE_SORT:
            c = _dt(d, t.sort())
            return t if c is None else c()
        return t
    if all(a.eq(c) for a, c in zip(args, t.children())) and s.eq(t.sort()) and not _seqop(t):
        return t
    if k == z3.Z3_OP_EQ:
        return args[0] == args[1]
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*args)
    if k == z3.Z3_OP_ITE:
        return z3.If(*args)
    if k == z3.Z3_OP_SELECT:
        return z3.Select(*args)
    if k == z3.Z3_OP_STORE:
        return z3.Store(*args)
    if k == z3.Z3_OP_CONST_ARRAY:
        return z3.K(A(t.sort().domain()), args[0])
    if k in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_RECOGNISER, z3.Z3_OP_DT_IS):
        src = t.sort() if k == z3.Z3_OP_DT_CONSTRUCTOR else t.arg(0).sort()
        if k in (z3.Z3_OP_DT_RECOGNISER, z3.Z3_OP_DT_IS):
            r = A(src)
            for i in range(src.num_constructors()):
                if src.recognizer(i).eq(d) or str(src.recognizer(i)) == str(d):
                    return r.recognizer(i)(args[0])
            # (_ is C)
            ps = d.params()
            for i in range(src.num_constructors()):
                if ps and ps[0].eq(src.constructor(i)):
                    return r.recognizer(i)(args[0])
            raise Cannot('recognizer')
        c = _dt(d, src)
        return (d if c is None else c)(*args)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        return z3.And(*args) if k == z3.Z3_OP_AND else z3.Or(*args)
    if k == z3.Z3_OP_NOT:
        return z3.Not(args[0])
    if k in (z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_LE,
             z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT,
             z3.Z3_OP_DIV, z3.Z3_OP_MOD, z3.Z3_OP_IDIV):
        return d(*args)
    if _seqop(t):
        return _fn(f'a:op{k}', args, s)
    if k == z3.Z3_OP_ARRAY_MAP or k == z3.Z3_OP_ARRAY_DEFAULT or k == z3.Z3_OP_AS_ARRAY:
        raise Cannot('array operation')
    raise Cannot(str(d))


def _seqop(t):
    """Is it an operation of the string or sequence theory?"""
    if t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_SELECT, z3.Z3_OP_STORE,
                           z3.Z3_OP_DISTINCT, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_DT_CONSTRUCTOR,
                           z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_RECOGNISER, z3.Z3_OP_DT_IS):
        return False
    return any(c.sort().kind() == z3.Z3_SEQ_SORT for c in t.children()) or \
        t.sort().kind() == z3.Z3_SEQ_SORT
