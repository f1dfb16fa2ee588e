"""Builtins, methods and trusted models of the libraries used by the verified code.

Everything here that is not a concrete evaluation is an assumption about Python or about a library;
``TRUSTED`` names the assumptions that a run used (reported in the evidence).
"""
import ast

import z3

from . import core
from .core import (Choice, ExcV, HeapList, Native, PyRaise, SV, SymSeq, Unsupported, VDict, VList, VObj,
                   VRef, VSet, dec, enc, is_unit, join_types, list_to_seq, opt_dt, sort_of, type_of, zstr)
from .interp import (Bound, ClassV, Frame, FuncV, Gen, Host, LazyGen, Mapped, ModuleV, NativeClass, SymIter)

SEP = '/'


class CtxMgr:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Unknown:
    """Name imported from a module that is not modelled: any use is unsupported."""

    def __init__(self, name):
        self.name = name


class StrMap(dict):
    pass


# ------------------------------------------------------------------------------- uninterpreted helpers

def uf(I, name, args, T):
    """Value of type T given by an uninterpreted function of the arguments (deterministic library call)."""
    I.run.trusted.add(name)
    terms = []
    for v in args:
        t = type_of(v)
        if t is None:
            raise Unsupported(f'{name} of {v!r}')
        terms.append(enc(I.ctx, v, t))
    f = z3.Function(name + '/' + ','.join(str(t.sort()) for t in terms),
                    *[t.sort() for t in terms], sort_of(T))
    return dec(I.ctx, f(*terms), T)


def strterm(I, v):
    return enc(I.ctx, v, 'str')


def is_str(v):
    return isinstance(v, str) or (isinstance(v, SV) and v.t == 'str')


def is_bytes(v):
    return isinstance(v, bytes) or (isinstance(v, SV) and v.t == 'bytes')


def is_int(v):
    return isinstance(v, int) or (isinstance(v, SV) and v.t in ('int', 'bool'))


def iterm(I, v):
    return enc(I.ctx, v, 'int')


def mk(I, e, T):
    return dec(I.ctx, e, T)


def concat_strs(I, parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    out = []
    for p in parts:
        if p == '' and isinstance(p, str):
            continue
        out.append(strterm(I, p))
    return SV('str', flat(out))


def flat(ts):
    """Canonical (flattened, literals merged) concatenation of string terms."""
    parts = []
    for t in ts:
        for p in core.flat_concat(t):
            l = core.lit_of(p)
            if l == '' and isinstance(l, str):
                continue
            if parts and isinstance(l, str):
                l0 = core.lit_of(parts[-1])
                if isinstance(l0, str):
                    parts[-1] = zstr(l0 + l)
                    continue
            parts.append(p)
    if not parts:
        return z3.StringVal('')
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def int_to_str(I, v):
    if isinstance(v, int):
        return str(v)
    # kept uninterpreted: only equality of the numbers is ever used
    return SV('str', z3.Function('str_of_int', z3.IntSort(), z3.StringSort())(z3.simplify(iterm(I, v))))


def to_str(I, v):
    v = I.force(v)
    if is_str(v):
        return v
    if v is None or isinstance(v, (bool, float, bytes)) or isinstance(v, tuple) and type_of(v) is None:
        return str(v)
    if isinstance(v, SV) and v.t == 'bool':
        return 'True' if I.ctx.branch(v.e) else 'False'
    if is_int(v):
        return int_to_str(I, v)
    if isinstance(v, ExcV):
        if len(v.args) == 1:
            return to_str(I, v.args[0])
        return uf_opaque_str(I, v)
    if isinstance(v, VObj) and isinstance(v.cls, NativeClass) and '__str__' in v.cls.methods:
        return v.cls.methods['__str__'](I, v)
    if type_of(v) is not None:
        return uf(I, 'str', [v], 'str')
    return uf_opaque_str(I, v)


def uf_opaque_str(I, v):
    return I.ctx.fresh('str', 'text')


def format_value(I, v, conv, spec):
    if spec:
        try:
            return format(v, spec) if isinstance(v, (int, float, str)) else uf(I, 'format' + str(spec), [v], 'str')
        except ValueError as e:
            raise PyRaise(ExcV(ValueError, tuple(e.args), implicit=True)) from None
    if conv == 114:
        if isinstance(v, (str, int, bytes, float)) or v is None:
            return repr(v)
        return uf(I, 'repr', [v], 'str') if type_of(v) is not None else uf_opaque_str(I, v)
    return to_str(I, v)


# ------------------------------------------------------------------------------- truth and equality

def truth_term(I, v):
    if v is None:
        return False
    if z3.is_expr(v):
        return v
    if isinstance(v, (bool, int, str, bytes, float, tuple, frozenset)):
        return bool(v)
    if isinstance(v, SV):
        if v.t == 'bool':
            return v.e
        if v.t == 'int':
            return v.e != 0
        if v.t in ('str', 'bytes'):
            return v.e != z3.StringVal('')
        if v.t == ('opaque', 'float'):
            return z3.Not(f_zero(v.e))
        return True
    if isinstance(v, Choice):
        out = []
        for c, a in v.alts:
            t = truth_term(I, a)
            out.append(c if t is True else (z3.BoolVal(False) if t is False else z3.And(c, t)))
        return z3.simplify(z3.Or(*out))
    if isinstance(v, VList):
        c = v.get()
        if isinstance(c, list):
            return bool(c)
        if hasattr(v, 'truth'):
            return v.truth()
        return z3.Length(c.e) > 0
    if isinstance(v, (VDict, VSet)):
        if v.concrete:
            return bool(v.get())
        T = v.K if isinstance(v, VDict) else v.T
        empty = z3.K(sort_of(T), opt_dt(v.V)[1] if isinstance(v, VDict) else z3.BoolVal(False))
        return v.get() != empty
    if isinstance(v, VObj) and isinstance(v.cls, NativeClass) and '__bool__' in v.cls.methods:
        return v.cls.methods['__bool__'](I, v)
    if isinstance(v, VObj) and isinstance(v.cls, ClassV):
        for n in ('__bool__', '__len__'):
            f = v.cls.lookup(n)
            if f:
                return truth_term(I, I.call(Bound(f, v)))
        return True
    if isinstance(v, (VObj, VRef)) and 'POFile' in (v.cls, getattr(v.cls, 'name', None)):
        return I.ctx.fresh('bool', 'entries').e      # a list of entries that may be empty
    return True


def both(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def any_(ts):
    ts = list(ts)
    if any(t is True for t in ts):
        return True
    ts = [t for t in ts if t is not False]
    if not ts:
        return False
    return ts[0] if len(ts) == 1 else z3.Or(*ts)


def eq_term(I, a, b):
    if a is b and not (isinstance(a, SV) and a.t == ('opaque', 'float')):
        return True
    if isinstance(a, Choice):
        return any_(both(c, eq_term(I, x, b)) for c, x in a.alts)
    if isinstance(b, Choice):
        return any_(both(c, eq_term(I, a, x)) for c, x in b.alts)
    if isinstance(a, LazyGen) or isinstance(b, LazyGen):
        return False
    if a is None or b is None:
        return a is None and b is None
    ca = isinstance(a, (bool, int, str, bytes, float))
    cb = isinstance(b, (bool, int, str, bytes, float))
    if ca and cb:
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = True
        for x, y in zip(a, b):
            out = both(out, eq_term(I, x, y))
        return out
    if (isinstance(a, SV) or ca) and (isinstance(b, SV) or cb):
        ta, tb = type_of(a), type_of(b)
        if ('opaque', 'float') in (ta, tb):
            t = float_compare(I, ast.Eq(), a, b)
            return t.e if isinstance(t, SV) else t
        if ta != tb:
            if {ta, tb} <= {'int', 'bool'} and isinstance(ta, str) and isinstance(tb, str):
                return iterm(I, a) == iterm(I, b)
            return False
        return z3.simplify(enc(I.ctx, a, ta) == enc(I.ctx, b, tb))
    if isinstance(a, VRef) and isinstance(b, VRef):
        if a.cls != b.cls:
            return False
        h = I.env.get('eq:' + a.cls)
        if h:
            return h(I, a, b)
        return z3.simplify(a.e == b.e)
    if isinstance(a, VList) and isinstance(b, VList):
        if a.concrete and b.concrete:
            x, y = a.get(), b.get()
            if len(x) != len(y):
                return False
            out = True
            for p, q in zip(x, y):
                out = both(out, eq_term(I, p, q))
            return out
        T = join_types(type_of(a), type_of(b))
        return z3.simplify(enc(I.ctx, a, T) == enc(I.ctx, b, T))
    if isinstance(a, (VDict, VSet)) and isinstance(b, type(a)):
        if isinstance(a, VDict) and a.concrete and b.concrete:
            x, y = a.get(), b.get()
            if set(x) != set(y):
                return False
            out = True
            for k in x:
                out = both(out, eq_term(I, x[k], y[k]))
            return out
        T = join_types(type_of(a), type_of(b))
        if None in T[1:]:
            return True
        return z3.simplify(enc(I.ctx, a, T) == enc(I.ctx, b, T))
    if isinstance(a, Host) or isinstance(b, Host):
        return isinstance(a, Host) and isinstance(b, Host) and a.obj is b.obj
    kinds = (SV, VList, VDict, VSet, VRef, VObj, tuple, FuncV, Native, ClassV, Bound)
    if isinstance(a, kinds) or isinstance(b, kinds):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def is_term(I, a, b):
    if isinstance(a, Choice):
        return any_(both(c, is_term(I, x, b)) for c, x in a.alts)
    if isinstance(b, Choice):
        return any_(both(c, is_term(I, a, x)) for c, x in b.alts)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, SV) and a.t == 'bool' or isinstance(b, SV) and b.t == 'bool':
            return eq_term(I, a, b)
        o = a if isinstance(b, bool) else b
        if isinstance(o, SV) and o.t == ('opaque', 'any'):
            f = z3.Function('is_' + str(a if isinstance(a, bool) else b), o.e.sort(), z3.BoolSort())
            return f(o.e)
        return False
    if isinstance(a, SV) and isinstance(b, SV):
        return eq_term(I, a, b)
    if isinstance(a, VRef) and isinstance(b, VRef):
        return z3.simplify(a.e == b.e) if a.cls == b.cls else False
    if isinstance(a, (str, int, bytes)) and isinstance(b, (str, int, bytes, SV)):
        return eq_term(I, a, b)
    return a is b


def wrapb(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    l = core.lit_of(t)
    return l if isinstance(l, bool) else SV('bool', t)


def kind_of(v):
    """Kind of a value whose operations are all known here, else None."""
    if v is None:
        return 'None'
    if is_int(v):
        return 'number'
    if is_str(v):
        return 'text'
    if is_bytes(v):
        return 'bytes'
    return type(v).__name__ if isinstance(v, (tuple, float, VList, VDict, VSet, VRef, Gen, LazyGen)) else None


def type_error(I, text, *values):
    """TypeError for values of kinds that the operation does not take (unsupported if a kind is not known)."""
    if None in [kind_of(I.force(v)) for v in values]:
        raise Unsupported(text)
    raise PyRaise(ExcV(TypeError, (text,), implicit=True))


def compare(I, op, a, b):
    if isinstance(op, ast.Eq):
        return wrapb(eq_term(I, a, b))
    if isinstance(op, ast.NotEq):
        t = eq_term(I, a, b)
        return wrapb(not t if isinstance(t, bool) else z3.Not(t))
    if isinstance(op, ast.Is):
        return wrapb(is_term(I, a, b))
    if isinstance(op, ast.IsNot):
        t = is_term(I, a, b)
        return wrapb(not t if isinstance(t, bool) else z3.Not(t))
    if isinstance(op, ast.In):
        return wrapb(contains(I, I.force(b), a))
    if isinstance(op, ast.NotIn):
        t = contains(I, I.force(b), a)
        return wrapb(not t if isinstance(t, bool) else z3.Not(t))
    a, b = I.force(a), I.force(b)
    if isinstance(a, (int, float, str, bytes, tuple)) and isinstance(b, (int, float, str, bytes, tuple)) and \
            not _symb(a) and not _symb(b):
        try:
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                    ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError as e:
            raise PyRaise(ExcV(TypeError, tuple(e.args), implicit=True)) from None
    if isinstance(a, SV) and a.t == ('opaque', 'float') or isinstance(b, SV) and b.t == ('opaque', 'float'):
        return float_compare(I, op, a, b)
    if is_int(a) and is_int(b):
        x, y = iterm(I, a), iterm(I, b)
        return wrapb({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
    if is_str(a) and is_str(b):
        x, y = strterm(I, a), strterm(I, b)
        return wrapb({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x,
                      ast.GtE: lambda: y <= x}[type(op)]())
    if a is None or b is None:
        raise PyRaise(ExcV(TypeError, ('ordering of None',), implicit=True))
    if isinstance(a, (VSet, frozenset)) and isinstance(b, (VSet, frozenset)):
        x, y = (v if isinstance(v, frozenset) else v.get() if v.concrete else None for v in (a, b))
        if x is None or y is None:
            raise Unsupported('comparison of sets')
        x, y = set(x), set(y)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
    if isinstance(a, tuple) and isinstance(b, tuple):
        # the first elements that differ decide
        for x, y in zip(a, b):
            if not I.truth(I.eq(x, y)):
                strict = {ast.LtE: ast.Lt(), ast.GtE: ast.Gt()}.get(type(op), op)
                return compare(I, strict, x, y)
        return {ast.Lt: len(a) < len(b), ast.LtE: len(a) <= len(b), ast.Gt: len(a) > len(b),
                ast.GtE: len(a) >= len(b)}[type(op)]
    if isinstance(a, VList) and isinstance(b, VList):
        ta, tb = type_of(a), type_of(b)
        if ta == tb or True:
            T = join_types(ta, tb)
            x, y = dec(I.ctx, enc(I.ctx, a, T), T), dec(I.ctx, enc(I.ctx, b, T), T)
            # ordering of lists: only that it is a strict total order
            lt = z3.Function('list_lt/' + str(sort_of(T)), sort_of(T), sort_of(T), z3.BoolSort())
            p, q = enc(I.ctx, x, T), enc(I.ctx, y, T)
            I.run.trusted.add('ordering of lists is a strict total order')
            I.ctx.assume(z3.Not(z3.And(lt(p, q), lt(q, p))))
            I.ctx.assume(z3.Or(lt(p, q), lt(q, p), p == q))
            I.ctx.assume(z3.Implies(p == q, z3.And(z3.Not(lt(p, q)), z3.Not(lt(q, p)))))
            return wrapb({ast.Lt: lt(p, q), ast.Gt: lt(q, p), ast.LtE: z3.Not(lt(q, p)),
                          ast.GtE: z3.Not(lt(p, q))}[type(op)])
    if kind_of(a) != kind_of(b) or kind_of(a) in ('VDict', 'None', 'Gen', 'LazyGen'):
        type_error(I, 'ordering of these values', a, b)
    raise Unsupported(f'ordering of {a!r} and {b!r}')


def _symb(v):
    return isinstance(v, tuple) and type_of(v) is None or \
        isinstance(v, tuple) and any(isinstance(x, (SV, VRef, Choice)) or _symb(x) for x in v)


def contains(I, c, x):
    if isinstance(c, (frozenset, set)):
        return any_(eq_term(I, x, y) for y in c)
    if isinstance(c, tuple):
        return any_(eq_term(I, x, y) for y in c)
    if isinstance(c, VList):
        k = c.get()
        if isinstance(k, list):
            return any_(eq_term(I, x, y) for y in k)
        x = I.force(x)
        try:
            t = enc(I.ctx, x, k.T)
        except Unsupported:
            return False
        if k.T == 'int':
            return z3.Select(I.ctx.seq_set(k), t)
        return z3.Contains(k.e, z3.Unit(t))
    if isinstance(c, VSet):
        if c.concrete:
            return any_(eq_term(I, x, y) for y in c.get())
        x = I.force(x)
        try:
            return z3.Select(c.get(), enc(I.ctx, x, c.T))
        except Unsupported:
            return False
    if isinstance(c, VDict):
        if c.concrete:
            return any_(eq_term(I, x, y) for y in c.get())
        x = I.force(x)
        try:
            t = enc(I.ctx, x, c.K)
        except Unsupported:
            return False
        return opt_dt(c.V)[5](z3.Select(c.get(), t))
    if is_str(c) or is_bytes(c):
        x = I.force(x)
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
            return x in c
        if is_str(c) and is_str(x) or is_bytes(c) and is_bytes(x):
            T = 'str' if is_str(c) else 'bytes'
            return z3.Contains(enc(I.ctx, c, T), enc(I.ctx, x, T))
        type_error(I, 'in <string> requires string', x)
    if isinstance(c, VObj):
        if isinstance(c.cls, NativeClass):
            if '__contains__' in c.cls.methods:
                return I.truth_term(c.cls.methods['__contains__'](I, c, x))
            if '__iter__' in c.cls.methods:
                return contains(I, c.cls.methods['__iter__'](I, c), x)
        elif c.cls.lookup('__contains__'):
            return I.truth_term(I.call(Bound(c.cls.lookup('__contains__'), c), [x]))
    if isinstance(c, Mapped):
        c = I.force(c)
    if isinstance(c, (Gen, LazyGen)):
        return contains(I, run_gen(I, c).lst if isinstance(c, LazyGen) else c.lst, x)
    if isinstance(c, DictView):
        if c.kind == 'keys':
            return contains(I, c.d, x)
        it = iterate(I, c)
        if not isinstance(it, SymIter):
            return any_(eq_term(I, x, y) for y in it)
    if c is None or is_int(c):
        raise PyRaise(ExcV(TypeError, ('argument is not iterable',), implicit=True))
    raise Unsupported(f'in {c!r}')


# ------------------------------------------------------------------------------- operators

def binop(I, op, a, b):
    conc = (int, float, str, bytes, bool)
    if isinstance(a, conc) and isinstance(b, conc):
        fs = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
              ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Div: lambda: a / b,
              ast.Pow: lambda: a ** b, ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b}
        if type(op) not in fs:
            raise Unsupported('operator')
        try:
            return fs[type(op)]()
        except Exception as e:
            raise PyRaise(ExcV(type(e), tuple(e.args), implicit=True)) from None
    if isinstance(op, ast.Add):
        if is_str(a) and is_str(b):
            return concat_strs(I, [a, b])
        if is_bytes(a) and is_bytes(b):
            return SV('bytes', flat([enc(I.ctx, a, 'bytes'), enc(I.ctx, b, 'bytes')]))
        if is_int(a) and is_int(b):
            return mk(I, z3.simplify(iterm(I, a) + iterm(I, b)), 'int')
        if isinstance(a, VList) and isinstance(b, VList):
            n = list_copy(I, a)
            list_extend(I, n, b)
            return n
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        type_error(I, 'unsupported operand types for +', a, b)
    if isinstance(op, ast.Sub) and is_int(a) and is_int(b):
        return mk(I, z3.simplify(iterm(I, a) - iterm(I, b)), 'int')
    if isinstance(op, ast.Mult):
        if is_int(a) and is_int(b):
            return mk(I, z3.simplify(iterm(I, a) * iterm(I, b)), 'int')
        if is_int(a) and is_str(b):
            a, b = b, a
        if is_str(a) and is_int(b):
            return str_repeat(I, a, b)
        if isinstance(a, VList) and isinstance(b, int) and a.concrete:
            return VList(I.ctx, a.get() * b)
    if isinstance(op, ast.Mod) and is_str(a):
        if isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            parts = a.split('%s')
            if '%' not in ''.join(parts) and len(parts) == len(args) + 1:
                out = [parts[0]]
                for x, p in zip(args, parts[1:]):
                    out += [to_str(I, x), p]
                return concat_strs(I, out)
        raise Unsupported('% formatting')
    if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor)) and all(
            isinstance(v, frozenset) or isinstance(v, VSet) and v.concrete for v in (a, b)):
        x, y = (list(v) if isinstance(v, frozenset) else list(v.get()) for v in (a, b))
        n = VSet(I.ctx, x if isinstance(op, ast.BitOr) else [])
        if isinstance(op, ast.BitOr):
            new = y
        else:
            new = [v for v in x if I.truth(contains(I, b, v)) == isinstance(op, ast.BitAnd)]
            if isinstance(op, ast.BitXor):
                new += [v for v in y if not I.truth(contains(I, a, v))]
        for v in new:
            set_add(I, n, v)
        return I.reg(n)
    if isinstance(op, (ast.FloorDiv, ast.Mod)) and is_int(a) and type(b) is int and b > 0:
        return mk(I, iterm(I, a) / b if isinstance(op, ast.FloorDiv) else iterm(I, a) % b, 'int')
    if isinstance(op, ast.BitOr) and isinstance(a, VDict) and isinstance(b, VDict):
        n = call_method(I, a, 'copy', [], {})
        call_method(I, n, 'update', [b], {})
        return n
    if (a is None or b is None) and not isinstance(op, ast.Mod) and not isinstance(a, VObj) and not isinstance(b, VObj):
        raise PyRaise(ExcV(TypeError, ('unsupported operand types',), implicit=True))
    raise Unsupported(f'operator {type(op).__name__} on {a!r}, {b!r}')


def str_repeat(I, s, n):
    if isinstance(n, int):
        return concat_strs(I, [s] * max(n, 0))
    f = z3.Function('str_repeat', z3.StringSort(), z3.IntSort(), z3.StringSort())
    e = f(strterm(I, s), iterm(I, n))
    I.run.trusted.add('repetition of strings')
    if isinstance(s, str) and len(s) == 1:
        I.ctx.assume(z3.Length(e) == z3.If(iterm(I, n) > 0, iterm(I, n), 0))
    else:
        I.ctx.assume(z3.Implies(iterm(I, n) <= 0, e == z3.StringVal('')))
    return SV('str', e)


# floats given as text: opaque values with the predicates the code can observe
def _fp(name):
    return z3.Function(name, core.opaque_sort('float'), z3.BoolSort())


def f_nan(e):
    return _fp('float_isnan')(e)


def f_inf(e):
    return _fp('float_isinf')(e)


def f_val(e):
    return z3.Function('float_value', core.opaque_sort('float'), z3.RealSort())(e)


def f_pos(e):
    return _fp('float_positive')(e)


def f_zero(e):
    return z3.And(z3.Not(f_nan(e)), z3.Not(f_inf(e)), f_val(e) == 0)


def float_compare(I, op, a, b):
    """IEEE comparison of an opaque float with another one or with a number."""
    def parts(v):
        if isinstance(v, SV) and v.t == ('opaque', 'float'):
            return (f_nan(v.e), z3.And(z3.Not(f_nan(v.e)), f_inf(v.e), f_pos(v.e)),
                    z3.And(z3.Not(f_nan(v.e)), f_inf(v.e), z3.Not(f_pos(v.e))), f_val(v.e))
        if isinstance(v, float) and v != v:
            return z3.BoolVal(True), z3.BoolVal(False), z3.BoolVal(False), z3.RealVal(0)
        if isinstance(v, float) and v in (float('inf'), float('-inf')):
            return z3.BoolVal(False), z3.BoolVal(v > 0), z3.BoolVal(v < 0), z3.RealVal(0)
        if isinstance(v, (int, float)):
            return z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False), z3.RealVal(str(v))
        if is_int(v):
            return z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False), z3.ToReal(iterm(I, v))
        raise PyRaise(ExcV(TypeError, ('ordering of a float',), implicit=True))
    n1, p1, m1, v1 = parts(a)
    n2, p2, m2, v2 = parts(b)
    fin1, fin2 = z3.Not(z3.Or(n1, p1, m1)), z3.Not(z3.Or(n2, p2, m2))
    lt = z3.And(z3.Not(n1), z3.Not(n2), z3.Or(z3.And(m1, z3.Not(m2)), z3.And(p2, z3.Not(p1)),
                                              z3.And(fin1, fin2, v1 < v2)))
    eq = z3.And(z3.Not(n1), z3.Not(n2), z3.Or(z3.And(m1, m2), z3.And(p1, p2), z3.And(fin1, fin2, v1 == v2)))
    gt = z3.And(z3.Not(n1), z3.Not(n2), z3.Not(lt), z3.Not(eq))
    t = {ast.Lt: lt, ast.LtE: z3.Or(lt, eq), ast.Gt: gt, ast.GtE: z3.Or(gt, eq), ast.Eq: eq,
         ast.NotEq: z3.Not(eq)}[type(op)]
    return wrapb(t)


# ------------------------------------------------------------------------------- iteration

class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind


class Enum_:
    def __init__(self, v, start):
        self.v, self.start = v, start


class Zip_:
    def __init__(self, vs):
        self.vs = vs


class Range_:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Chain_:
    def __init__(self, v):
        self.v = v


class Filter_:
    pass


def seq_nth(I, e, i):
    """i-th element; uninterpreted for sequences given by a name (cheaper for the solver)."""
    i = z3.simplify(i)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return z3.Function('at/' + str(e.sort()), e.sort(), z3.IntSort(), e.sort().basis())(e, i)
    return e[i]


def seq_iter(I, e, T):
    def elem(i):
        t = seq_nth(I, e, i)
        v = dec(I.ctx, t, T)
        for (s, fn) in I.elem_facts:
            if s.eq(e):
                fn(I, v, i)
        return v
    return SymIter(z3.Length(e), elem, seq=(e, T))


def iterated(I, v):
    """The list object whose elements a loop takes one by one, if any."""
    v = I.force(v)
    if isinstance(v, VList):
        return v
    if isinstance(v, Enum_):
        return iterated(I, v.v)
    return None


def iterate(I, v):
    """Python list of items, or SymIter."""
    v = I.force(v)
    if isinstance(v, SymIter):
        return v
    if isinstance(v, (tuple, list)):
        return list(v)
    if isinstance(v, (frozenset, set)):
        return sorted(v, key=repr)
    if isinstance(v, (str, bytes)):
        return list(v)
    if isinstance(v, SV) and v.t in ('str', 'bytes'):
        e = v.e

        def elem(i):
            I.ctx.assume(z3.Implies(z3.And(i >= 0, i < z3.Length(e)), z3.Length(z3.SubString(e, i, 1)) == 1))
            return SV('str', z3.SubString(e, i, 1))
        return SymIter(z3.Length(e), elem, 'str')
    if isinstance(v, VList):
        c = v.get()
        if isinstance(c, list):
            return list(c)
        return seq_iter(I, c.e, c.T)
    if isinstance(v, Gen):
        return iterate(I, v.lst)
    if isinstance(v, VSet):
        if v.concrete:
            return list(v.get())
        return seq_iter(I, set_order(I, v), v.T)
    if isinstance(v, VDict):
        if v.concrete:
            return list(v.get())
        return iterate(I, DictView(v, 'keys'))
    if isinstance(v, DictView):
        d = v.d
        if d.concrete:
            return {'keys': list(d.get()), 'values': list(d.get().values()),
                    'items': [(k, x) for k, x in d.get().items()]}[v.kind]
        if d.order is None:
            raise Unsupported('iteration of a symbolic mapping')
        it = seq_iter(I, d.order.e, d.order.T)
        if v.kind == 'items':
            return it
        k = 0 if v.kind == 'keys' else 1
        return SymIter(it.n, lambda i: it.elem(i)[k])
    if isinstance(v, Enum_):
        it = iterate(I, v.v)
        if isinstance(it, SymIter):
            st = iterm(I, v.start)
            return SymIter(it.n, lambda i: (mk(I, z3.simplify(i + st), 'int'), it.elem(i)))
        return [(binop(I, ast.Add(), v.start, i), x) for i, x in enumerate(it)]
    if isinstance(v, Range_):
        if isinstance(v.lo, int) and isinstance(v.hi, int):
            if v.hi - v.lo > 200:
                raise Unsupported('range too long to unroll')
            return list(range(v.lo, v.hi))
        lo, hi = iterm(I, v.lo), iterm(I, v.hi)
        n = z3.simplify(hi - lo)
        return SymIter(z3.If(n > 0, n, 0) if not _is_len(n) else n,
                       lambda i: mk(I, z3.simplify(lo + i), 'int'))
    if isinstance(v, Zip_):
        its = [iterate(I, x) for x in v.vs]
        if not any(isinstance(x, SymIter) for x in its):
            return [tuple(t) for t in zip(*its)]
        if all(isinstance(x, SymIter) for x in its) and all(its[0].n.eq(x.n) for x in its):
            return SymIter(its[0].n, lambda i: tuple(x.elem(i) for x in its))
        raise Unsupported('zip of sequences of different lengths')
    if isinstance(v, Chain_):
        outer = iterate(I, v.v)
        if isinstance(outer, SymIter):
            raise Unsupported('chain of a symbolic sequence')
        lst = VList(I.ctx, [])
        for x in outer:
            list_extend(I, lst, x)
        return iterate(I, lst)
    if isinstance(v, VObj):
        if isinstance(v.cls, NativeClass) and '__iter__' in v.cls.methods:
            return iterate(I, v.cls.methods['__iter__'](I, v))
        if isinstance(v.cls, ClassV) and v.cls.lookup('__iter__'):
            return iterate(I, I.call(Bound(v.cls.lookup('__iter__'), v)))
    if isinstance(v, (LazyGen, Mapped)):
        return iterate(I, I.force(v))
    if v is None or is_int(v) or isinstance(v, VRef):
        raise PyRaise(ExcV(TypeError, ('object is not iterable',), implicit=True))
    import enum
    if isinstance(v, type) and issubclass(v, enum.Enum):
        return list(v)
    raise Unsupported(f'iteration over {v!r}')


def _is_len(n):
    return z3.is_app(n) and n.decl().kind() == z3.Z3_OP_SEQ_LENGTH


def set_order(I, s):
    f = z3.Function('iteration_order_of_set/' + str(sort_of(s.T)), s.get().sort(), z3.SeqSort(sort_of(s.T)))
    return f(s.get())


def seq_term_of(I, v):
    return I.force(v).get().e


def run_gen(I, g):
    """Evaluate a generator expression eagerly."""
    out = VList(I.ctx, [])
    I.reg(out)
    I.comp(g.node.generators, g.frame, lambda f: list_append(I, out, I.ev(g.node.elt, f)), g.node)
    return Gen(out)


# ------------------------------------------------------------------------------- lists, sets, dicts

def list_type(I, l, x):
    return join_types(type_of(l)[1] if type_of(l) else None, type_of(x))


def widen_seq(I, l, T):
    """Content of a list as a SymSeq with element type T."""
    c = l.get()
    if isinstance(c, list):
        return list_to_seq(I.ctx, c, T)
    if c.T == T:
        return c
    raise Unsupported(f'list of {c.T!r} receives {T!r}')


def list_append(I, l, x):
    c = l.get()
    if isinstance(c, list):
        l.set(c + [x])
        return
    x = I.force(x) if not _encodable(I, x, c.T) else x
    l.set(SymSeq(seq_concat(c.e, z3.Unit(enc(I.ctx, x, c.T))), c.T))


def _encodable(I, x, T):
    try:
        enc(I.ctx, x, T)
        return True
    except Unsupported:
        return False


def seq_concat(a, b):
    ps = [p for p in core.flat_concat(a) + core.flat_concat(b) if not core.is_empty(p)]
    if not ps:
        return a
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def list_extend(I, l, v):
    v = I.force(v)
    if isinstance(v, (VList, Gen)):
        o = v.lst if isinstance(v, Gen) else v
        oc, c = o.get(), l.get()
        if isinstance(oc, list):
            for x in list(oc):
                list_append(I, l, x)
            return
        T = oc.T
        if isinstance(c, list):
            for x in c:
                T = join_types(T, type_of(x))
            if T != oc.T:
                raise Unsupported('list of mixed types')
            c = list_to_seq(I.ctx, c, T)
        l.set(SymSeq(seq_concat(c.e, oc.e), T))
        return
    it = iterate(I, v)
    if isinstance(it, SymIter):
        k = ('extend',) + tuple(I.ctx.stack[-1:])
        from .loops import sym_for

        class N:
            lineno = 0
        sym_for(I, k, it, lambda x: list_append(I, l, x), lambda: None)
        return
    for x in it:
        list_append(I, l, x)


def list_copy(I, l):
    c = l.get()
    n = VList(I.ctx, list(c) if isinstance(c, list) else c, T=l.T)
    return I.reg(n)


def to_list(I, v):
    v = I.force(v)
    if isinstance(v, Gen):
        return list_copy(I, v.lst)
    if isinstance(v, VList):
        return list_copy(I, v)
    it = iterate(I, v)
    if not isinstance(it, SymIter):
        return I.reg(VList(I.ctx, list(it)))
    if isinstance(v, DictView) and v.kind == 'items' and v.d.order is not None:
        return I.reg(VList(I.ctx, v.d.order))
    if isinstance(v, VSet):
        return I.reg(VList(I.ctx, SymSeq(set_order(I, v), v.T)))
    if isinstance(v, VObj):
        return list_copy(I, v.cls.methods['__iter__'](I, v))
    out = I.reg(VList(I.ctx, []))
    list_extend(I, out, v)
    return out


import enum as _enum  # noqa: E402
_HASHABLE = (str, int, bytes, _enum.Enum)


def set_add(I, s, x):
    if s.concrete:
        cur = s.get()
        if isinstance(x, _HASHABLE) and all(isinstance(y, _HASHABLE) for y in cur):
            if x not in cur:
                s.set(cur + [x])
            return
        ts = [eq_term(I, x, y) for y in cur]
        t = any_(ts)
        if t is True:
            return
        if t is False:
            s.set(cur + [x])
            return
        if not I.ctx.branch(t):
            s.set(cur + [x])
        return
    s.set(z3.Store(s.get(), enc(I.ctx, I.force(x), s.T), True))


def _key(I, k):
    k = I.force(k)
    if isinstance(k, (SV,)) or isinstance(k, tuple) and _symb(k) or isinstance(k, VRef):
        return k, False
    if isinstance(k, (VList, VDict, VSet)):
        raise PyRaise(ExcV(TypeError, ('unhashable type',), implicit=True))
    if isinstance(k, tuple):
        k = tuple(I.force(x) for x in k)
    return k, True


def dict_get(I, d, k):
    """(found, value) with forking on presence."""
    k, conc = _key(I, k)
    if d.concrete:
        c = d.get()
        if conc and k in c:
            return True, c[k]
        for kk, x in c.items():
            t = eq_term(I, kk, k)
            if t is False:
                continue
            if I.ctx.branch(t):
                return True, x
        return False, None
    if hasattr(d, 'lookup'):
        return d.lookup(I, k)
    try:
        t = enc(I.ctx, k, d.K)
    except Unsupported:
        return False, None
    dt = opt_dt(d.V)
    o = z3.simplify(z3.Select(d.get(), t))
    if I.ctx.branch(dt[5](o)):
        v = dec(I.ctx, z3.simplify(dt[3](o)), d.V)
        if isinstance(v, (VDict, VList, VSet)):
            v.link_to(d, t, d.V)
        return True, v
    return False, None


def to_map(I, d, K, V):
    """Turn a concrete-spine dict into a symbolic map."""
    K0, V0 = type_of(d)[1:]
    K, V = join_types(K0, K), join_types(V0, V)
    values = list(d.get().items())
    d.set(enc(I.ctx, d, ('map', K, V)))
    d.K, d.V = K, V
    for k, v in values:
        v = I.force(v)
        if isinstance(v, (VDict, VList, VSet)):
            v.link_to(d, enc(I.ctx, k, K), V)


def setitem(I, o, k, v):
    o = I.force(o)
    if isinstance(o, VDict):
        k, conc = _key(I, k)
        if o.concrete:
            c = o.get()
            if conc and (k in c or not any(isinstance(x, SV) or isinstance(x, tuple) and _symb(x) for x in c)):
                n = dict(c)
                n[k] = v
                o.set(n)
                return
            if I.env.get('dict.fork') and len(c) < 6:
                # unknown key of a small mapping: one path for each existing key that it may be equal to
                n = dict(c)
                for kk in c:
                    t = eq_term(I, kk, k)
                    if t is not False and I.ctx.branch(t if z3.is_expr(t) else z3.BoolVal(bool(t))):
                        k = kk
                        break
                n[k] = v
                o.set(n)
                return
            v = I.force(v)
            if type_of(v) is None:
                raise Unsupported('symbolic key with a value of no type')
            if not c and isinstance(k, SV) and isinstance(v, VDict) and v.concrete and not v.get():
                o.set({k: v})          # the type of the values is not known yet
                return
            to_map(I, o, type_of(k), type_of(v))
        v = v if _encodable(I, v, o.V) else I.force(v)
        t = enc(I.ctx, k, o.K)
        o.set(z3.Store(o.get(), t, opt_dt(o.V)[2](enc(I.ctx, v, o.V))))
        o.order = None
        if isinstance(v, (VDict, VList, VSet)):
            v.link_to(o, t, o.V)
        return
    if isinstance(o, VList):
        c = o.get()
        k = I.force(k)
        if isinstance(c, list) and isinstance(k, int):
            if not -len(c) <= k < len(c):
                raise PyRaise(ExcV(IndexError, ('list assignment index out of range',), implicit=True))
            n = list(c)
            n[k] = v
            o.set(n)
            return
    if isinstance(o, VObj) and isinstance(o.cls, NativeClass) and '__setitem__' in o.cls.methods:
        return o.cls.methods['__setitem__'](I, o, k, v)
    if isinstance(o, (tuple, str)) or o is None:
        raise PyRaise(ExcV(TypeError, ('item assignment',), implicit=True))
    raise Unsupported(f'item assignment to {o!r}')


def delitem(I, o, k):
    if isinstance(o, VDict):
        found, _ = dict_get(I, o, k)
        if not I.truth(found):
            raise PyRaise(ExcV(KeyError, (k,), implicit=True))
        k, conc = _key(I, k)
        if o.concrete and conc:
            n = dict(o.get())
            if k in n:
                del n[k]
                o.set(n)
                return
        if not o.concrete:
            o.set(z3.Store(o.get(), enc(I.ctx, k, o.K), opt_dt(o.V)[1]))
            return
    if isinstance(o, VList) and o.concrete and isinstance(k, int):
        n = list(o.get())
        if not -len(n) <= k < len(n):
            raise PyRaise(ExcV(IndexError, ('list assignment index out of range',), implicit=True))
        del n[k]
        o.set(n)
        return
    if isinstance(o, VObj) and isinstance(o.cls, NativeClass) and '__delitem__' in o.cls.methods:
        return o.cls.methods['__delitem__'](I, o, k)
    raise Unsupported('del item')


def set_slice(I, o, sl, v, fr):
    if isinstance(o, VList) and sl.lower is None and sl.upper is None and sl.step is None:
        n = to_list(I, v)
        o.set(n.get())
        return
    raise Unsupported('slice assignment')


def getitem(I, o, k):
    o, k = I.force(o), I.force(k)
    if isinstance(o, VDict):
        found, v = dict_get(I, o, k)
        if not found:
            raise PyRaise(ExcV(KeyError, (k,), implicit=True))
        return v
    if isinstance(o, (tuple, str, bytes)) and isinstance(k, int):
        try:
            return o[k]
        except IndexError as e:
            raise PyRaise(ExcV(IndexError, tuple(e.args), implicit=True)) from None
    if isinstance(o, tuple) and isinstance(k, SV):
        for j in range(len(o)):
            if I.ctx.branch(z3.Or(iterm(I, k) == j, iterm(I, k) == j - len(o))):
                return o[j]
        raise PyRaise(ExcV(IndexError, ('tuple index out of range',), implicit=True))
    if isinstance(o, VList):
        if hasattr(o, 'getitem'):
            return o.getitem(I, k)
        c = o.get()
        if isinstance(c, list):
            if isinstance(k, int):
                if not -len(c) <= k < len(c):
                    raise PyRaise(ExcV(IndexError, ('list index out of range',), implicit=True))
                return c[k]
            if isinstance(k, SV) and c:
                for j in range(len(c)):
                    if I.ctx.branch(z3.Or(k.e == j, k.e == j - len(c))):
                        return c[j]
            raise PyRaise(ExcV(IndexError, ('list index out of range',), implicit=True))
        i, n = iterm(I, k), z3.Length(c.e)
        if I.ctx.branch(z3.simplify(i < 0)):
            i = n + i
        if not I.ctx.branch(z3.And(i >= 0, i < n)):
            raise PyRaise(ExcV(IndexError, ('list index out of range',), implicit=True))
        return seq_iter(I, c.e, c.T).elem(z3.simplify(i))
    if isinstance(o, SV) and o.t in ('str', 'bytes'):
        i, n = iterm(I, k), z3.Length(o.e)
        if I.ctx.branch(z3.simplify(i < 0)):
            i = n + i
        if not I.ctx.branch(z3.And(i >= 0, i < n)):
            raise PyRaise(ExcV(IndexError, ('string index out of range',), implicit=True))
        I.ctx.assume(z3.Length(z3.SubString(o.e, i, 1)) == 1)
        return SV('str', z3.SubString(o.e, z3.simplify(i), 1))
    if isinstance(o, str) and isinstance(k, SV):
        return getitem(I, SV('str', zstr(o)), k)
    if isinstance(o, VObj) and isinstance(o.cls, NativeClass) and '__getitem__' in o.cls.methods:
        return o.cls.methods['__getitem__'](I, o, k)
    if isinstance(o, VObj) and isinstance(o.cls, ClassV) and o.cls.lookup('__getitem__'):
        return I.call(Bound(o.cls.lookup('__getitem__'), o), [k])
    if o is None or is_int(o):
        raise PyRaise(ExcV(TypeError, (f'{o!r} object is not subscriptable',), implicit=True))
    if isinstance(o, type) or isinstance(o, ClassV):
        return o        # subscripted generic annotation
    if isinstance(o, Gen):
        raise PyRaise(ExcV(TypeError, ('generator is not subscriptable',), implicit=True))
    raise Unsupported(f'item of {o!r}')


def getslice(I, o, lo, hi, st):
    if st is not None and st != 1:
        if isinstance(o, (str, bytes, tuple)):
            return o[lo:hi:st]
        if isinstance(o, VList) and o.concrete:
            return I.reg(VList(I.ctx, o.get()[lo:hi:st]))
        raise Unsupported('slice with a step')
    conc = (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int))
    if isinstance(o, (str, bytes, tuple)) and conc:
        return o[lo:hi]
    if isinstance(o, VList) and o.concrete and conc:
        return I.reg(VList(I.ctx, o.get()[lo:hi]))
    if hasattr(o, 'getslice'):
        return o.getslice(I, lo, hi)
    if isinstance(o, str):
        o = SV('str', zstr(o))
    if isinstance(o, SV) and o.t in ('str', 'bytes'):
        e = o.e
        mkv = lambda t: dec(I.ctx, t, o.t)
        sub = lambda a, b: z3.SubString(e, a, z3.simplify(b - a))
    elif isinstance(o, VList) and not o.concrete:
        e = o.get().e
        T = o.get().T
        mkv = lambda t: I.reg(VList(I.ctx, SymSeq(t, T)))
        sub = lambda a, b: z3.Extract(e, a, z3.simplify(b - a))
    elif o is None or is_int(o):
        raise PyRaise(ExcV(TypeError, ('object is not subscriptable',), implicit=True))
    else:
        raise Unsupported(f'slice of {o!r}')
    n = z3.Length(e)

    def norm(x, default):
        if x is None:
            return default
        t = iterm(I, x)
        if isinstance(x, int):
            return t if x >= 0 else z3.If(n + t > 0, n + t, 0)
        if I.ctx.branch(z3.simplify(t < 0)):
            return z3.If(n + t > 0, n + t, 0)
        return t
    a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
    if lo is None and hi is None:
        return mkv(e)
    # Python clips both ends; the solver's extraction clips the length and is empty out of range
    return mkv(sub(a, b))


# ------------------------------------------------------------------------------- attributes and methods

def getattr_(I, o, n):
    if isinstance(o, ModuleV):
        if n in o.vars:
            return o.vars[n]
        full = f'{o.name}.{n}'
        if I.source.path(full):
            return I.module(full)
        if getattr(o, 'external', False):
            return Unknown(full)
        raise Unsupported(f'{o.name}.{n}')
    if isinstance(o, VObj):
        if n in o.fields:
            return o.fields[n]
        if isinstance(o.cls, NativeClass):
            if n in o.cls.props:
                return o.cls.props[n](I, o)
            if n in o.cls.methods:
                m = o.cls.methods[n]
                return Native(lambda I_, a, k: m(I_, o, *a, **k), n)
            if n == '__class__':
                return o.cls
            fb = getattr(o.cls, 'fallback', None)
            if fb is not None:
                v = fb(I, o, n)
                o.fields[n] = v
                return v
            raise Unsupported(f'attribute {o.cls.name}.{n}')
        v = o.cls.lookup(n)
        if v is not None:
            if isinstance(v, FuncV):
                names = [getattr(d, 'name', None) for d in v.deco]
                if 'property' in names:
                    return I.call_func(FuncV(v.node, v.mod, v.name, v.parent, v.cls, v.defaults,
                                             v.kwdefaults), [o], {})
                if 'staticmethod' in names:
                    return v
                if 'classmethod' in names:
                    return Bound(v, o.cls)
                return Bound(v, o)
            return v
        if n == '__class__':
            return o.cls
        h = I.env.get('fields:' + o.cls.name)
        if h is not None:
            r = h(I, o, n)
            if r is not NotImplemented:
                return r
        raise PyRaise(ExcV(AttributeError, (n,), implicit=True))
    if isinstance(o, VRef):
        h = I.env.get(f'attr:{o.cls}')
        if h is not None:
            r = h(I, o, n)
            if r is not NotImplemented:
                return r
        return I.ctx.heap_read(o, n)
    if isinstance(o, ClassV):
        v = o.lookup(n)
        if v is not None:
            if isinstance(v, FuncV) and any(getattr(d, 'name', None) == 'staticmethod' for d in v.deco):
                return v
            return v
        if n == '__name__':
            return o.name
        raise PyRaise(ExcV(AttributeError, (n,), implicit=True))
    if isinstance(o, ExcV):
        if n == 'args':
            return o.args
        if n == '__class__':
            return o.cls
        if n == '__module__':
            return getattr(o.cls, '__module__', None) or o.cls.mod.name
        if n == '__cause__':
            return None
        if n == 'code' and o.cls is SystemExit:
            return o.args[0] if o.args else None
    if n == '__name__' and isinstance(o, (type, FuncV)):
        return getattr(o, '__name__', None) or o.name
    if n == '__module__' and isinstance(o, (type, FuncV)):
        return o.__module__ if isinstance(o, type) else o.mod.name
    if n == '__class__':
        return TYPES.get(type_of(o)) or type(o)
    if isinstance(o, (VList, VDict, VSet, SV, str, bytes, tuple, frozenset, Gen, DictView)):
        if not has_method(o, n):
            raise PyRaise(ExcV(AttributeError, (n,), implicit=True))
        return Native(lambda I_, a, k: call_method(I_, o, n, a, k), n)
    if o is None or isinstance(o, (bool, int, float)):
        raise PyRaise(ExcV(AttributeError, (f'{o!r} has no attribute {n}',), implicit=True))
    if isinstance(o, Unknown):
        return Unknown(f'{o.name}.{n}')
    if isinstance(o, Host):
        if not hasattr(o.obj, n):
            raise PyRaise(ExcV(AttributeError, (n,), implicit=True))
        return getattr(o.obj, n)
    import enum
    if isinstance(o, (enum.Enum, type)):
        try:
            v = getattr(o, n)
        except AttributeError:
            raise PyRaise(ExcV(AttributeError, (n,), implicit=True)) from None
        if isinstance(v, (str, int, enum.Enum)):
            return v
        if o is str and n == 'join':
            return Native(lambda I_, a, k: call_method(I_, a[0], n, a[1:], k), n)
        if o is dict and n == 'fromkeys':
            return Native(b_fromkeys, n)
        if o in (str, list, dict):
            return Native(lambda I_, a, k: call_method(I_, I_.force(a[0]), n, a[1:], k), n)
    raise Unsupported(f'attribute {n} of {o!r}')


TYPES = {'str': str, 'int': int, 'bool': bool, 'bytes': bytes}


def has_method(o, n):
    if isinstance(o, VList):
        return hasattr([], n)
    if isinstance(o, VDict):
        return hasattr({}, n)
    if isinstance(o, (VSet, frozenset)):
        return hasattr(set(), n)
    if is_str(o):
        return hasattr('', n)
    if is_bytes(o):
        return hasattr(b'', n)
    if isinstance(o, tuple):
        return hasattr((), n)
    if isinstance(o, SV):
        if o.t in ('int', 'bool'):
            return hasattr(1, n)
        raise Unsupported(f'attribute {n} of {o!r}')
    return True


def call_method(I, o, n, a, k):
    o = I.force(o)
    if isinstance(o, VList):
        return list_method(I, o, n, a, k)
    if isinstance(o, VDict):
        return dict_method(I, o, n, a, k)
    if isinstance(o, VSet):
        return set_method(I, o, n, a, k)
    if is_str(o) or is_bytes(o):
        return str_method(I, o, n, [I.force(x) for x in a], {x: I.force(y) for x, y in k.items()})
    if isinstance(o, tuple):
        if n in ('index', 'count'):
            raise Unsupported('tuple.' + n)
    if isinstance(o, frozenset):
        if n == 'union':
            return o.union(*a)
    raise Unsupported(f'method {n} of {o!r}')


def list_method(I, o, n, a, k):
    if hasattr(o, 'm_' + n):
        return getattr(o, 'm_' + n)(I, *a, **k)
    c = o.get()
    if n == 'append':
        return list_append(I, o, a[0])
    if n == 'extend':
        return list_extend(I, o, a[0])
    if n == 'copy':
        return list_copy(I, o)
    if n == 'clear':
        o.set([])
        return None
    if n == 'pop':
        i = I.force(a[0]) if a else -1
        if isinstance(c, list):
            if not isinstance(i, int):
                raise Unsupported('list.pop of a symbolic index')
            if not -len(c) <= i < len(c):
                raise PyRaise(ExcV(IndexError, ('pop from empty list',), implicit=True))
            x = list(c)
            v = x.pop(i)
            o.set(x)
            return v
        if i in (-1, 0):
            ln = z3.Length(c.e)
            if not I.ctx.branch(ln > 0):
                raise PyRaise(ExcV(IndexError, ('pop from empty list',), implicit=True))
            if i == -1:
                v = dec(I.ctx, c.e[z3.simplify(ln - 1)], c.T)
                o.set(SymSeq(z3.Extract(c.e, z3.IntVal(0), ln - 1), c.T))
            else:
                v = dec(I.ctx, c.e[0], c.T)
                o.set(SymSeq(z3.Extract(c.e, z3.IntVal(1), ln - 1), c.T))
            return v
    if n == 'insert' and isinstance(c, list) and isinstance(a[0], int):
        x = list(c)
        x.insert(a[0], a[1])
        o.set(x)
        return None
    if n == 'remove':
        if isinstance(c, list):
            for j, y in enumerate(c):
                t = eq_term(I, y, a[0])
                if t is True or t is not False and I.ctx.branch(t):
                    o.set(c[:j] + c[j + 1:])
                    return None
            raise PyRaise(ExcV(ValueError, ('list.remove(x): x not in list',), implicit=True))
    if n == 'sort':
        if k or a:
            kk = I.force(k.get('key')) if k.get('key') is not None else None
            if kk is not None or k.get('reverse'):
                raise Unsupported('sort with a key')
        o.set(sorted_content(I, o))
        return None
    if n == 'reverse' and isinstance(c, list):
        o.set(c[::-1])
        return None
    if n == 'index' and isinstance(c, list):
        for j, y in enumerate(c):
            t = eq_term(I, y, a[0])
            if t is True or t is not False and I.ctx.branch(t):
                return j
        raise PyRaise(ExcV(ValueError, ('not in list',), implicit=True))
    if n == 'count' and isinstance(c, list):
        return sum(1 for y in c if I.truth(wrapb(eq_term(I, y, a[0]))))
    raise Unsupported(f'list.{n}')


def sorted_content(I, o):
    c = o.get()
    if isinstance(c, list):
        if len(c) < 2:
            return c
        if not any(isinstance(x, (SV, VRef, Choice)) or _symb(x) for x in c):
            try:
                return sorted(c)
            except TypeError as e:
                raise PyRaise(ExcV(TypeError, tuple(e.args), implicit=True)) from None
        T = type_of(o)[1]
        c = list_to_seq(I.ctx, c, T)
    I.run.trusted.add('sorted')
    f = z3.Function('sorted/' + str(c.e.sort()), c.e.sort(), c.e.sort())
    I.ctx.assume(z3.Length(f(c.e)) == z3.Length(c.e))
    return SymSeq(f(c.e), c.T)


def dict_method(I, o, n, a, k):
    if n == 'get':
        found, v = dict_get(I, o, a[0])
        return v if found else (a[1] if len(a) > 1 else None)
    if n in ('items', 'keys', 'values'):
        return DictView(o, n)
    if n == 'update':
        for src in a:
            src = I.force(src)
            if isinstance(src, VDict) and src.concrete:
                for kk, x in src.get().items():
                    setitem(I, o, kk, x)
            elif isinstance(src, VDict):
                if o.concrete and not o.get():
                    o.set(src.get())
                    o.K, o.V, o.order = src.K, src.V, src.order
                    return None
                up = z3.Function('dict_update/' + str(src.get().sort()), src.get().sort(), src.get().sort(),
                                 src.get().sort())
                cur = enc(I.ctx, o, ('map', src.K, src.V))
                o.set(up(cur, src.get()))
                o.K, o.V = src.K, src.V
                I.run.trusted.add('dict.update of symbolic mappings')
            else:
                it = iterate(I, src)
                if isinstance(it, SymIter):
                    raise Unsupported('dict.update of a symbolic sequence')
                for p in it:
                    kk, x = p
                    setitem(I, o, kk, x)
        for kk, x in k.items():
            setitem(I, o, kk, x)
        return None
    if n == 'copy':
        d = VDict(I.ctx, dict(o.get()) if o.concrete else o.get(), K=o.K, V=o.V)
        d.order = o.order
        return I.reg(d)
    if n == 'setdefault':
        found, v = dict_get(I, o, a[0])
        if found:
            return v
        setitem(I, o, a[0], a[1] if len(a) > 1 else None)
        return a[1] if len(a) > 1 else None
    if n == 'pop':
        found, v = dict_get(I, o, a[0])
        if found:
            delitem(I, o, a[0])
            return v
        if len(a) > 1:
            return a[1]
        raise PyRaise(ExcV(KeyError, (a[0],), implicit=True))
    if n == 'clear':
        o.set({})
        return None
    raise Unsupported(f'dict.{n}')


def set_method(I, o, n, a, k):
    if n == 'add':
        return set_add(I, o, a[0])
    if n in ('union', 'update'):
        t = o if n == 'update' else VSet(I.ctx, o.get(), T=o.T)
        for src in a:
            it = iterate(I, src)
            if isinstance(it, SymIter):
                raise Unsupported('set.update of a symbolic sequence')
            for x in it:
                set_add(I, t, x)
        return t if n == 'union' else None
    if n == 'copy':
        return I.reg(VSet(I.ctx, o.get(), T=o.T))
    raise Unsupported(f'set.{n}')


PURE_STR = {'lower': 'str', 'upper': 'str', 'title': 'str', 'capitalize': 'str', 'strip': 'str',
            'lstrip': 'str', 'rstrip': 'str', 'replace': 'str', 'isdigit': 'bool', 'isspace': 'bool',
            'casefold': 'str', 'swapcase': 'str', 'isalpha': 'bool', 'isalnum': 'bool', 'isnumeric': 'bool',
            'expandtabs': 'str', 'zfill': 'str', 'ljust': 'str', 'rjust': 'str', 'center': 'str',
            'splitlines': ('list', 'str'), 'encode': 'bytes', 'decode': 'str', 'removeprefix': 'str',
            'removesuffix': 'str', 'isidentifier': 'bool', 'isupper': 'bool', 'islower': 'bool'}


def str_method(I, o, n, a, k):
    T = 'str' if is_str(o) else 'bytes'
    host = (str, int, bytes, bool, type(None), float)
    if n == 'join':
        return str_join(I, o, a[0])
    if n == 'format' and isinstance(o, str):
        return str_format(I, o, a, k)
    if n == 'format' and is_str(o) and not a:
        # text with fields that is not known: only the fields that it mentions matter
        I.run.trusted.add('str.format of an unknown text is a function of it and of the given fields that it mentions')
        used = [x for x in sorted(k) if I.ctx.branch(z3.Contains(o.e, z3.StringVal('{' + x + '}')))]
        return uf(I, 'str.format/' + ','.join(used), [o] + [I.force(k[x]) for x in used], 'str')
    if isinstance(o, (str, bytes)) and all(_plain(x) for x in a) and all(_plain(x) for x in k.values()):
        if n == 'format':
            pass
        try:
            r = getattr(o, n)(*a, **k)
        except Exception as e:
            raise PyRaise(ExcV(type(e), tuple(e.args), implicit=True)) from None
        return I.reg(VList(I.ctx, list(r))) if isinstance(r, list) else r
    e = enc(I.ctx, o, T)
    g = lambda x: enc(I.ctx, x, T)
    bad = lambda x: not (is_str(x) if T == 'str' else is_bytes(x))
    if n in ('startswith', 'endswith'):
        fn = z3.PrefixOf if n == 'startswith' else z3.SuffixOf
        opts = a[0] if isinstance(a[0], tuple) else (a[0],)
        if len(a) > 1:
            raise Unsupported(n + ' with a start')
        if any(bad(x) for x in opts):
            type_error(I, n, *opts)
        return wrapb(any_(fn(g(I.force(x)), e) for x in opts))
    if n == 'find' and len(a) == 1:
        return mk(I, z3.IndexOf(e, g(a[0]), 0), 'int')
    if n == 'index' and len(a) == 1:
        if I.ctx.branch(z3.Contains(e, g(a[0]))):
            return mk(I, z3.IndexOf(e, g(a[0]), 0), 'int')
        raise PyRaise(ExcV(ValueError, ('substring not found',), implicit=True))
    if n == 'count' and len(a) == 1:
        r = uf(I, 'str.count', [o, a[0]], 'int')
        I.ctx.assume(r.e >= 0)
        I.ctx.assume((r.e > 0) == z3.Contains(e, g(a[0])))
        return r
    if n in ('split', 'rsplit'):
        sep = a[0] if a else k.get('sep')
        mx = a[1] if len(a) > 1 else k.get('maxsplit', -1)
        if sep is None:
            return uf(I, 'str.split()', [o], ('list', T))
        if mx == 1 and n == 'split':
            return I.reg(split_once(I, e, g(sep), T))
        if mx == -1:
            r = uf(I, 'str.split', [o, sep], ('list', T))
            I.ctx.assume(z3.Length(r.get().e) >= 1)
            return r
        return uf(I, f'str.{n}/{mx}', [o, sep], ('list', T))
    if n == 'partition':
        if I.ctx.branch(z3.Contains(e, g(a[0]))):
            i = z3.IndexOf(e, g(a[0]), 0)
            return (mk(I, z3.SubString(e, 0, i), T), a[0],
                    mk(I, z3.SubString(e, i + z3.Length(g(a[0])), z3.Length(e)), T))
        return (o, '' if T == 'str' else b'', '' if T == 'str' else b'')
    if n == 'replace' and len(a) == 3 and a[2] == 1:
        return mk(I, z3.Replace(e, g(a[0]), g(a[1])), T)
    if n in ('removeprefix', 'removesuffix'):
        p = g(a[0])
        if n == 'removeprefix':
            if I.ctx.branch(z3.PrefixOf(p, e)):
                return mk(I, z3.SubString(e, z3.Length(p), z3.Length(e)), T)
        elif I.ctx.branch(z3.And(z3.SuffixOf(p, e), p != z3.StringVal(''))):
            return mk(I, z3.SubString(e, 0, z3.Length(e) - z3.Length(p)), T)
        return o
    if n == 'encode' and T == 'str' or n == 'decode' and T == 'bytes':
        from . import models
        e_ = a[0] if a else k.get('encoding', 'utf-8')
        if len(a) > 1 or set(k) - {'encoding'} or not is_str(I.force(e_)):
            raise Unsupported(n + ' with these arguments')
        if n == 'decode':
            return uf(I, 'text decoded from the bytes', [o, I.force(e_)], 'str')
        return models.encoded(I, o, I.force(e_))
    if n == 'replace' and len(a) == 2 and all(isinstance(x, str) for x in a) and a[0] == a[1]:
        return o
    if n in PURE_STR:
        args = [o] + list(a) + [k[x] for x in sorted(k)]
        suffix = ''.join('/' + x for x in sorted(k))
        if n == 'splitlines' and (a or k):
            raise Unsupported('splitlines with arguments')
        rt = PURE_STR[n]
        if rt == 'str' and T == 'bytes' and n != 'decode':
            rt = 'bytes'
        if rt == ('list', 'str') and T == 'bytes':
            rt = ('list', 'bytes')
        r = uf(I, f'{T}.{n}{suffix}', args, rt)
        facts(I, n, o, a, r)
        return r
    raise Unsupported(f'str.{n}')


def facts(I, n, o, a, r):
    """Facts assumed about the string methods kept uninterpreted."""
    if not isinstance(r, SV):
        return
    e, x = r.e, enc(I.ctx, o, r.t) if r.t in ('str', 'bytes') else None
    if n == 'replace' and len(a) == 2:
        old = enc(I.ctx, a[0], r.t)
        I.ctx.assume(z3.Implies(z3.Not(z3.Contains(x, old)), e == x))
        I.ctx.assume(z3.Implies(x == z3.StringVal(''), e == z3.If(old == z3.StringVal(''),
                                                                 enc(I.ctx, a[1], r.t), x)))
    if n in ('strip', 'rstrip', 'lstrip'):
        I.ctx.assume(z3.Length(e) <= z3.Length(x))
        I.ctx.assume(z3.Implies(x == z3.StringVal(''), e == z3.StringVal('')))
        if n == 'rstrip':
            I.ctx.assume(z3.PrefixOf(e, x))
        if n == 'lstrip':
            I.ctx.assume(z3.SuffixOf(e, x))
        I.ctx.assume(z3.Contains(x, e))
        chars = ' \t\n\r\x0b\x0c' if not a else a[0]
        if isinstance(chars, str):
            for c in I.env.get('strip keeps', ()):
                if c not in chars and not c.isspace():
                    I.ctx.assume(z3.Contains(x, z3.StringVal(c)) == z3.Contains(e, z3.StringVal(c)))


def _plain(x):
    return isinstance(x, (str, int, bytes, bool, float, type(None))) or \
        isinstance(x, tuple) and all(_plain(y) for y in x)


def split_once(I, e, sep, T):
    if I.ctx.branch(z3.Contains(e, sep)):
        i = z3.IndexOf(e, sep, 0)
        return VList(I.ctx, [mk(I, z3.SubString(e, 0, i), T),
                             mk(I, z3.SubString(e, i + z3.Length(sep), z3.Length(e)), T)])
    return VList(I.ctx, [mk(I, e, T)])


def str_join(I, sep, v):
    v = I.force(v) if not isinstance(v, LazyGen) else v
    if isinstance(v, LazyGen) and sep == '':
        # accumulate the text instead of the list of pieces
        acc = I.reg(VObj(I.ctx, NativeClass('joined'), {'text': ''}))

        def emit(f):
            x = I.force(I.ev(v.node.elt, f))
            if not is_str(x):
                type_error(I, 'sequence item is not a string', x)
            I.setattr(acc, 'text', concat_strs(I, [I.force(acc.fields['text']), x]))
        I.comp(v.node.generators, v.frame, emit, v.node)
        return acc.fields['text']
    if isinstance(v, LazyGen):
        v = run_gen(I, v)
    if isinstance(v, Gen):
        v = v.lst
    if isinstance(v, VList) and not v.concrete:
        return uf(I, 'str.join', [sep, v], 'str')
    it = iterate(I, v)
    if isinstance(it, SymIter):
        return uf(I, 'str.join', [sep, to_list(I, v)], 'str')
    parts = []
    for i, x in enumerate(it):
        x = I.force(x)
        if not (is_str(x) if is_str(sep) else is_bytes(x)):
            type_error(I, 'sequence item is not a string', x)
        if i:
            parts.append(sep)
        parts.append(x)
    if is_bytes(sep):
        raise Unsupported('bytes.join')
    return concat_strs(I, parts)


def str_format(I, o, a, k):
    import string
    parts, auto = [], 0
    try:
        items = list(string.Formatter().parse(o))
    except ValueError as e:
        raise PyRaise(ExcV(ValueError, tuple(e.args), implicit=True)) from None
    for lit, field, spec, conv in items:
        parts.append(lit)
        if field is None:
            continue
        if spec or conv:
            raise Unsupported('format specification')
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise PyRaise(ExcV(KeyError, (field,), implicit=True))
        parts.append(to_str(I, v))
    return concat_strs(I, parts)


# ------------------------------------------------------------------------------- context managers

def enter_context(I, v, body):
    if isinstance(v, CtxMgr):
        done = []

        def on_yield(x):
            if done:
                raise Unsupported('context manager that yields twice')
            done.append(1)
            body(x)
        I.call_raw(v.f, v.args, v.kw, yields=on_yield)
        if not done:
            raise PyRaise(ExcV(RuntimeError, ("generator didn't yield",), implicit=True))
        return
    if isinstance(v, VObj) and isinstance(v.cls, NativeClass) and '__enter__' in v.cls.methods:
        return v.cls.methods['__enter__'](I, v, body)
    if isinstance(v, Suppress):
        try:
            body(None)
        except PyRaise as e:
            if I.exc_matches(e.exc, v.types):
                return
            raise
        return
    raise Unsupported(f'with {v!r}')


class Suppress:
    def __init__(self, types):
        self.types = types


# ------------------------------------------------------------------------------- builtins

def b_len(I, a, k):
    v = I.force(a[0])
    if isinstance(v, (str, bytes, tuple, frozenset)):
        return len(v)
    if isinstance(v, SV) and v.t in ('str', 'bytes'):
        return mk(I, z3.Length(v.e), 'int')
    if isinstance(v, VList):
        if hasattr(v, 'length'):
            return v.length(I)
        c = v.get()
        return len(c) if isinstance(c, list) else mk(I, z3.Length(c.e), 'int')
    if isinstance(v, (VDict, VSet)):
        if v.concrete:
            return len(v.get())
        if isinstance(v, VDict) and v.order is not None:
            return mk(I, z3.Length(v.order.e), 'int')
        return uf(I, 'len', [v], 'int')
    if isinstance(v, VObj) and isinstance(v.cls, NativeClass) and '__len__' in v.cls.methods:
        return v.cls.methods['__len__'](I, v)
    if isinstance(v, VObj) and isinstance(v.cls, NativeClass) and '__iter__' in v.cls.methods:
        return b_len(I, [v.cls.methods['__iter__'](I, v)], {})
    if isinstance(v, DictView):
        return b_len(I, [v.d], {})
    if isinstance(v, Range_):
        x, y = iterm(I, v.lo), iterm(I, v.hi)
        return mk(I, z3.simplify(z3.If(y > x, y - x, 0)), 'int')
    if v is None or is_int(v) or isinstance(v, (bool, float)):
        raise PyRaise(ExcV(TypeError, ('object has no len()',), implicit=True))
    raise Unsupported(f'len of {v!r}')


def b_any(I, a, k, stop=True):
    """any() and all() of lists (one formula) or of generators (a loop with an early exit)."""
    v = a[0]
    if isinstance(v, LazyGen):
        from .interp import _Break
        acc = I.reg(VObj(I.ctx, NativeClass('any'), {'r': not stop}))

        def emit(f):
            t = I.truth(I.ev(v.node.elt, f))
            if t == stop:
                I.setattr(acc, 'r', stop)
                raise _Stop()

        class _Stop(_Break):
            pass
        # a break of the innermost loop only; nested generators re-check the accumulator
        if len(v.node.generators) > 1:
            raise Unsupported('any of a nested generator')
        I.comp(v.node.generators, v.frame, emit, v.node)
        return acc.fields['r']
    v = I.force(v)
    it = iterate(I, v)
    if isinstance(it, SymIter):
        from .loops import sym_for
        from .interp import _Break
        acc = I.reg(VObj(I.ctx, NativeClass('any'), {'r': not stop}))

        def body(x):
            if I.truth(x) == stop:
                I.setattr(acc, 'r', stop)
                raise _Break()
        sym_for(I, ('any',) + tuple(I.ctx.stack[-1:]), it, body, lambda: None)
        return acc.fields['r']
    ts = [truth_term(I, x) for x in it]
    if stop:
        return wrapb(any_(ts))
    if any(t is False for t in ts):
        return False
    ts = [t for t in ts if t is not True]
    return wrapb(z3.And(*ts)) if ts else True


def b_all(I, a, k):
    return b_any(I, a, k, stop=False)


def b_next(I, a, k):
    """next(generator expression[, default]): first element."""
    v = a[0]
    from .interp import _Break
    if isinstance(v, LazyGen) and len(v.node.generators) == 1:
        acc = I.reg(VObj(I.ctx, NativeClass('next'), {'r': None, 'found': False}))

        def emit(f):
            I.setattr(acc, 'r', I.ev(v.node.elt, f))
            I.setattr(acc, 'found', True)
            raise _Break()
        I.comp(v.node.generators, v.frame, emit, v.node)
        if I.truth(acc.fields['found']):
            return acc.fields['r']
    else:
        it = iterate(I, v)
        if isinstance(it, SymIter):
            if I.ctx.branch(it.n > 0):
                return it.elem(z3.IntVal(0))
        elif it:
            return it[0]
    if len(a) > 1:
        return a[1]
    raise PyRaise(ExcV(StopIteration, (), implicit=True))


def b_isinstance(I, a, k):
    v, t = I.force(a[0]), I.force(a[1])
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if _isinst(I, v, x):
            return True
    return False


def _isinst(I, v, t):
    if isinstance(t, (ClassV, NativeClass)):
        if isinstance(v, VObj):
            return v.cls is t
        return isinstance(v, VRef) and getattr(t, 'name', None) == v.cls
    if not isinstance(t, type):
        raise Unsupported(f'isinstance of {t!r}')
    if isinstance(v, SV):
        py = {'str': str, 'int': int, 'bool': bool, 'bytes': bytes, ('opaque', 'float'): float}.get(v.t)
        if v.t == ('opaque', 'handler'):
            return t is object
        if py is None:
            raise Unsupported('isinstance of an opaque value')
        return issubclass(py, t)
    if isinstance(v, VList):
        return issubclass(list, t)
    if isinstance(v, VDict):
        return issubclass(dict, t)
    if isinstance(v, VSet):
        return issubclass(set, t)
    if isinstance(v, (VObj, VRef, FuncV, Native, Bound)):
        return t is object
    if isinstance(v, ExcV):
        return I.exc_matches(v, t)
    return isinstance(v, t)


def b_callable(I, a, k):
    v = I.force(a[0])
    return isinstance(v, (FuncV, Native, Bound, ClassV, NativeClass, type)) or \
        isinstance(v, SV) and v.t == ('opaque', 'handler')


def b_str(I, a, k):
    return to_str(I, a[0]) if a else ''


def b_int(I, a, k):
    v = I.force(a[0]) if a else 0
    if isinstance(v, (int, str, float)) and not isinstance(v, SV):
        try:
            return int(v, *a[1:])
        except Exception as e:
            raise PyRaise(ExcV(type(e), tuple(e.args), implicit=True)) from None
    if is_int(v):
        return mk(I, iterm(I, v), 'int')
    if isinstance(v, SV) and v.t == ('opaque', 'float'):
        if I.ctx.branch(f_nan(v.e)):
            raise PyRaise(ExcV(ValueError, ('cannot convert float NaN to integer',), implicit=True))
        if I.ctx.branch(f_inf(v.e)):
            raise PyRaise(ExcV(OverflowError, ('cannot convert float infinity to integer',), implicit=True))
        r = f_val(v.e)
        return SV('int', z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    if isinstance(v, SV) and v.t == 'str':
        ok = uf(I, 'int() accepts', [v], 'bool')
        if I.truth(ok):
            return uf(I, 'int', [v], 'int')
        raise PyRaise(ExcV(ValueError, ('invalid literal for int()',), implicit=True))
    type_error(I, 'int()', v)


def b_float(I, a, k):
    v = I.force(a[0])
    if isinstance(v, (int, float, str)):
        try:
            return float(v)
        except Exception as e:
            raise PyRaise(ExcV(type(e), tuple(e.args), implicit=True)) from None
    if isinstance(v, SV) and v.t == ('opaque', 'float'):
        return v
    if is_str(v):
        ok = uf(I, 'float() accepts', [v], 'bool')
        if I.truth(ok):
            return uf(I, 'float', [v], ('opaque', 'float'))
        raise PyRaise(ExcV(ValueError, ('could not convert string to float',), implicit=True))
    if is_int(v):
        f = z3.Function('float_of_int', z3.IntSort(), core.opaque_sort('float'))
        e = f(iterm(I, v))
        I.ctx.assume(z3.And(z3.Not(f_nan(e)), z3.Not(f_inf(e)), f_val(e) == z3.ToReal(iterm(I, v))))
        return SV(('opaque', 'float'), e)
    type_error(I, 'float() argument', v)


def b_bool(I, a, k):
    return wrapb(truth_term(I, a[0])) if a else False


def b_list(I, a, k):
    return to_list(I, a[0]) if a else I.reg(VList(I.ctx, []))


def b_tuple(I, a, k):
    if not a:
        return ()
    it = iterate(I, a[0])
    if isinstance(it, SymIter):
        return to_list(I, a[0])
    return tuple(it)


def b_dict(I, a, k):
    d = I.reg(VDict(I.ctx, {}))
    if a:
        dict_method(I, d, 'update', [a[0]], {})
    for x, y in k.items():
        setitem(I, d, x, y)
    return d


def b_set(I, a, k):
    s = I.reg(VSet(I.ctx, []))
    if a:
        it = iterate(I, a[0])
        if isinstance(it, SymIter):
            l = to_list(I, a[0])
            c = l.get()
            return I.reg(VSet(I.ctx, I.ctx.seq_set(c) if not isinstance(c, list) else c, T=c.T))
        for x in it:
            set_add(I, s, x)
    return s


def b_frozenset(I, a, k):
    return b_set(I, a, k)


def b_max(I, a, k, mx=True):
    if k:
        raise Unsupported('max with keywords')
    if len(a) == 1:
        v = I.force(a[0])
        if isinstance(v, VList) and not v.concrete or isinstance(v, VSet) and not v.concrete:
            if isinstance(v, VList):
                c = v.get()
                if c.T != 'int':
                    raise Unsupported('max of a list')
                if not I.ctx.branch(z3.Length(c.e) > 0):
                    raise PyRaise(ExcV(ValueError, ('max() arg is an empty sequence',), implicit=True))
                s = I.ctx.seq_set(c)
            else:
                s = v.get()
            I.run.trusted.add('max of a list of numbers')
            m = z3.Function('max_of' if mx else 'min_of', s.sort(), z3.IntSort())(s)
            j = z3.Int('j!')
            I.ctx.assume(z3.Select(s, m))
            I.ctx.assume(z3.ForAll([j], z3.Implies(z3.Select(s, j), (j <= m) if mx else (j >= m)),
                                   patterns=[z3.Select(s, j)]))
            return SV('int', m)
        vals = iterate(I, v)
        if isinstance(vals, SymIter):
            raise Unsupported('max of a symbolic sequence')
    else:
        vals = list(a)
    if not vals:
        raise PyRaise(ExcV(ValueError, ('max() arg is an empty sequence',), implicit=True))
    cur = vals[0]
    for x in vals[1:]:
        if I.truth(compare(I, ast.Gt() if mx else ast.Lt(), x, cur)):
            cur = x
    return cur


def b_min(I, a, k):
    return b_max(I, a, k, mx=False)


def b_sorted(I, a, k):
    kk = k.get('key')
    if kk is not None or k.get('reverse'):
        raise Unsupported('sorted with a key')
    l = to_list(I, a[0])
    l.set(sorted_content(I, l))
    return l


def b_enumerate(I, a, k):
    return Enum_(a[0], I.force(a[1] if len(a) > 1 else k.get('start', 0)))


def b_zip(I, a, k):
    return Zip_(a)


def b_range(I, a, k):
    a = [I.force(x) for x in a]
    if len(a) == 1:
        return Range_(0, a[0])
    if len(a) == 3:
        if all(isinstance(x, int) for x in a):
            return I.reg(VList(I.ctx, list(range(*a))))
        raise Unsupported('range with a step')
    return Range_(a[0], a[1])


def b_map(I, a, k):
    if len(a) != 2:
        raise Unsupported('map of several iterables')
    return Mapped(a[0], a[1], False)


def b_filter(I, a, k):
    return Mapped(a[0], a[1], True)


def run_map(I, m):
    """Evaluate a map or a filter eagerly."""
    out = I.reg(VList(I.ctx, []))

    def body(x):
        if not m.keep:
            list_append(I, out, I.call(m.fn, [x]))
        elif I.truth(x if m.fn is None else I.call(m.fn, [x])):
            list_append(I, out, x)
    I.for_loop(('filter' if m.keep else 'map',) + tuple(I.ctx.stack[-1:]), iterate(I, m.v), body)
    return Gen(out)


def b_iter(I, a, k):
    return a[0]


def b_reversed(I, a, k):
    it = iterate(I, a[0])
    if isinstance(it, SymIter):
        n = it.n
        return I.reg(_sym_list(I, SymIter(n, lambda i: it.elem(n - 1 - i))))
    return I.reg(VList(I.ctx, it[::-1]))


def _sym_list(I, it):
    raise Unsupported('reversed of a symbolic sequence')


def b_sum(I, a, k):
    it = iterate(I, a[0])
    if isinstance(it, SymIter):
        acc = I.reg(VObj(I.ctx, NativeClass('sum'), {'s': a[1] if len(a) > 1 else 0}))
        I.for_loop(('sum',) + tuple(I.ctx.stack[-1:]), it,
                   lambda x: I.setattr(acc, 's', binop(I, ast.Add(), I.force(acc.fields['s']), I.force(x))))
        return acc.fields['s']
    cur = a[1] if len(a) > 1 else 0
    for x in it:
        cur = binop(I, ast.Add(), cur, I.force(x))
    return cur


def b_hasattr(I, a, k):
    try:
        getattr_(I, I.force(a[0]), a[1])
        return True
    except PyRaise as e:
        if e.exc.cls is AttributeError:
            return False
        raise


def b_getattr(I, a, k):
    try:
        return getattr_(I, I.force(a[0]), a[1])
    except PyRaise as e:
        if e.exc.cls is AttributeError and len(a) > 2:
            return a[2]
        raise


def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def b_type(I, a, k):
    v = I.force(a[0])
    if isinstance(v, VObj):
        return v.cls
    if isinstance(v, ExcV):
        return v.cls
    t = type_of(v)
    return {'str': str, 'int': int, 'bool': bool, 'bytes': bytes, 'none': type(None)}.get(t) or \
        (list if isinstance(v, VList) else dict if isinstance(v, VDict) else type(v))


def b_ord(I, a, k):
    v = I.force(a[0])
    return ord(v) if isinstance(v, str) else uf(I, 'ord', [v], 'int')


def b_repr(I, a, k):
    return format_value(I, I.force(a[0]), 114, '')


def b_abs(I, a, k):
    v = I.force(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    e = iterm(I, v)
    return SV('int', z3.If(e >= 0, e, -e))


def b_open(I, a, k):
    f = I.env.get('open')
    if f is None:
        raise Unsupported('open')
    return f(I, a, k)


def b_fromkeys(I, a, k):
    it = iterate(I, a[0])
    v = a[1] if len(a) > 1 else None
    if isinstance(it, SymIter):
        l = to_list(I, a[0])
        c = l.get()
        s = I.ctx.seq_set(c)
        f = z3.Function('dict_fromkeys/' + str(s.sort()) + str(v), s.sort(),
                        sort_of(('map', c.T, type_of(v))))
        return VDict(I.ctx, f(s), K=c.T, V=type_of(v))
    d = I.reg(VDict(I.ctx, {}))
    for x in it:
        setitem(I, d, x, v)
    return d


def N(f, name):
    return Native(f, name)


def b_print(I, a, k):
    from pyvc import models
    out = I.force(k.get('file'))
    if out is None:
        out = models.stream(I, 'stdout')
    sep, end = (I.force(k.get(n)) for n in ('sep', 'end'))
    parts = []
    for j, x in enumerate(a):
        parts += ([' ' if sep is None else sep] if j else []) + [b_str(I, [x], {})]
    I.call(I.getattr(out, 'write'), [concat_strs(I, parts + ['\n' if end is None else end])])


BUILTINS = {n: N(f, n) for n, f in {
    'len': b_len, 'any': b_any, 'all': b_all, 'next': b_next, 'isinstance': b_isinstance,
    'callable': b_callable, 'max': b_max, 'min': b_min, 'sorted': b_sorted, 'enumerate': b_enumerate,
    'zip': b_zip, 'range': b_range, 'map': b_map, 'filter': b_filter, 'iter': b_iter,
    'reversed': b_reversed, 'sum': b_sum, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr,
    'type': b_type, 'ord': b_ord, 'repr': b_repr, 'abs': b_abs, 'print': b_print, 'open': b_open,
    'frozenset': b_frozenset}.items()}
for _n in dir(__builtins__) if not isinstance(__builtins__, dict) else list(__builtins__):
    _o = __builtins__[_n] if isinstance(__builtins__, dict) else getattr(__builtins__, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        BUILTINS[_n] = _o
BUILTINS.update({'str': str, 'int': int, 'bool': bool, 'list': list, 'dict': dict, 'set': set,
                 'tuple': tuple, 'float': float, 'bytes': bytes, 'object': object, 'True': True,
                 'False': False, 'None': None, 'staticmethod': N(None, 'staticmethod'),
                 'property': N(None, 'property'), 'classmethod': N(None, 'classmethod'),
                 'NotImplemented': NotImplemented, 'spec': 'spec'})
CONSTRUCT = {str: b_str, int: b_int, bool: b_bool, list: b_list, dict: b_dict, set: b_set, tuple: b_tuple,
             float: b_float}


def call_host(I, f, a, k):
    if isinstance(f, type) and f in CONSTRUCT:
        return CONSTRUCT[f](I, a, k)
    if isinstance(f, Unknown):
        raise Unsupported(f'call of {f.name}')
    if isinstance(f, SV):
        h = I.env.get('call:' + str(f.t))
        if h:
            return h(I, f, a, k)
    if f is None or isinstance(f, (str, int, SV, VList, VDict, tuple)):
        raise PyRaise(ExcV(TypeError, ('object is not callable',), implicit=True))
    raise Unsupported(f'call of {f!r}')


def coerce(I, v, T):
    if isinstance(v, Choice):
        return v if _encodable(I, v, T) else I.force(v)
    if isinstance(v, LazyGen):
        return I.force(v)
    return v


def external_module(I, name):
    from . import models
    m = models.MODULES.get(name)
    if m is None:
        mod = ModuleV(name)
        mod.external = True

        class D(dict):
            def __contains__(self, k):
                return True

            def __getitem__(self, k):
                return dict.get(self, k) or Unknown(f'{name}.{k}')
        mod.vars = D()
        return mod
    mod = m(I)
    mod.external = True
    return mod
