"""Symbolic values, paths and the obligation checker of pyvc.

A *path* is one execution of the interpreted code under a list of decisions.  Whenever the
code branches over a symbolic condition, ``Ctx.branch`` consults the decision list; new decisions are
appended (only feasible ones) and the other side is queued.  Every path is run again from the start, so
mutable values are ordinary Python objects mutated in place.
"""
import re
import time

import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The code is outside the subset the verifier models (never counted as proved)."""


class Infeasible(Exception):
    """The current path is infeasible or deliberately ended."""


class PathEnd(Exception):
    """The path ended at a loop cut."""


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, exc):
        Exception.__init__(self, exc)
        self.exc = exc


class ExcV:
    """Exception value of the interpreted program."""

    def __init__(self, cls, args=(), implicit=False, where=None):
        self.cls, self.args, self.implicit, self.where = cls, tuple(args), implicit, where

    def __repr__(self):
        return f'{self.cls.__name__}{self.args!r}' + (f' at {self.where}' if self.where else '')


# --------------------------------------------------------------------------------- types and sorts

_OPAQUE = {}
_OPT = {}
_TUP = {}


def opaque_sort(name):
    if name not in _OPAQUE:
        _OPAQUE[name] = z3.DeclareSort('O_' + name)
    return _OPAQUE[name]


def opt_dt(T):
    if T not in _OPT:
        s = sort_of(T)
        n = 'Opt_%d' % len(_OPT)
        d = z3.Datatype(n)
        d.declare(n + '_none')
        d.declare(n + '_some', (n + '_val', s))
        d = d.create()
        _OPT[T] = (d, getattr(d, n + '_none'), getattr(d, n + '_some'), getattr(d, n + '_val'),
                   getattr(d, 'is_' + n + '_none'), getattr(d, 'is_' + n + '_some'))
    return _OPT[T]


def tup_dt(Ts):
    if Ts not in _TUP:
        n = 'Tup_%d' % len(_TUP)
        d = z3.Datatype(n)
        d.declare(n + '_mk', *[(f'{n}_{i}', sort_of(t)) for i, t in enumerate(Ts)])
        d = d.create()
        _TUP[Ts] = (d, getattr(d, n + '_mk'), [getattr(d, f'{n}_{i}') for i in range(len(Ts))])
    return _TUP[Ts]


def sort_of(T):
    if T in ('str', 'bytes', 'char'):
        return z3.StringSort()
    if T == 'int':
        return z3.IntSort()
    if T == 'bool':
        return z3.BoolSort()
    if T == 'none':
        return z3.BoolSort()
    if isinstance(T, tuple):
        k = T[0]
        if k == 'opt':
            return opt_dt(T[1])[0]
        if k == 'ref':
            return z3.IntSort()
        if k == 'tuple':
            return tup_dt(T[1:])[0]
        if k == 'list':
            return z3.SeqSort(sort_of(T[1]))
        if k == 'map':
            return z3.ArraySort(sort_of(T[1]), sort_of(('opt', T[2])))
        if k == 'set':
            return z3.ArraySort(sort_of(T[1]), z3.BoolSort())
        if k == 'opaque':
            return opaque_sort(T[1])
    raise Unsupported(f'no sort for type {T!r}')


class SV:
    """Symbolic scalar: type tag and z3 term."""
    __slots__ = ('t', 'e')

    def __init__(self, t, e):
        self.t, self.e = t, e

    def __repr__(self):
        return f'<{self.t}:{self.e}>'


class Choice:
    """Guarded alternatives, exhaustive; resolved (forked) when the value is inspected."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Choice(%r)' % (self.alts,)


class VRef:
    """Reference to an object of a class whose fields live in heap arrays (PO entries, PO files)."""
    __slots__ = ('cls', 'e')

    def __init__(self, cls, e):
        self.cls, self.e = cls, e

    def __repr__(self):
        return f'<ref {self.cls} {self.e}>'


class SymSeq:
    """Content of a list of unknown length: z3 sequence and element type."""
    __slots__ = ('e', 'T')

    def __init__(self, e, T):
        self.e, self.T = e, T

    def __repr__(self):
        return f'SymSeq({self.e})'


class Linked:
    """A mutable value held by a symbolic mapping: what is stored there, for reading and writing."""
    link = None        # (mapping, encoded key, type of the value)

    def link_to(self, parent, key, T):
        self.link = (parent, key, T)
        if T[0] == 'map':
            self.K, self.V, self.order = T[1], T[2], None
        else:
            self.T = T[1]
        return self

    def linked_get(self):
        parent, key, T = self.link
        if parent.concrete:
            raise Unsupported('value of a mapping that was replaced')
        e = z3.simplify(opt_dt(T)[3](z3.Select(parent.get(), key)))
        return SymSeq(e, T[1]) if T[0] == 'list' else e

    def linked_set(self, content):
        parent, key, T = self.link
        if parent.concrete:
            raise Unsupported('value of a mapping that was replaced')
        if isinstance(content, SymSeq):
            e = content.e
        elif z3.is_expr(content):
            e = content
        else:
            e = enc(self.ctx, type(self)(self.ctx, content), T)
        parent.set(z3.Store(parent.get(), key, opt_dt(T)[2](e)))
        parent.order = None


class VList(Linked):
    kind = 'list'

    def __init__(self, ctx, content, name=None, kind='list', T=None):
        self.ctx, self._c, self.kind, self.T = ctx, content, kind, T
        self.birth = self.created = ctx.tick()
        self.key = name or ctx.site_key('list')
        ctx.objs[self.key] = self

    def get(self):
        return self._c if self.link is None else self.linked_get()

    def set(self, content):
        if self.link is not None:
            return self.linked_set(content)
        self.ctx.note_write(self, None)
        self._c = content

    def raw_set(self, content):
        self._c = content

    @property
    def concrete(self):
        return isinstance(self.get(), list)

    def __repr__(self):
        return f'VList({self.get()!r})'


class HeapList(VList):
    """List stored in a field of a VRef object."""

    def __init__(self, ctx, ref, field, T):
        self.ctx, self.ref, self.field, self.T = ctx, ref, field, T
        self.birth = -1
        self.key = ('heap', ref.cls, field)
        self.kind = 'list'

    def get(self):
        return SymSeq(z3.Select(self.ctx.heap_array(self.ref.cls, self.field), self.ref.e), self.T)

    def set(self, content):
        if isinstance(content, list):
            content = list_to_seq(self.ctx, content, self.T)
        self.ctx.heap_write(self.ref.cls, self.field, self.ref.e, content.e)

    raw_set = set


class VTuple:
    """Only used for kwargs-like opaque tuples; concrete tuples are Python tuples."""


class VDict(Linked):
    """Dict: concrete spine (Python dict) or symbolic map (z3 array of optionals)."""

    def __init__(self, ctx, content, name=None, K=None, V=None):
        self.ctx, self._c, self.K, self.V = ctx, content, K, V
        self.birth = self.created = ctx.tick()
        self.key = name or ctx.site_key('dict')
        ctx.objs[self.key] = self
        self.order = None      # SymSeq of (k, v) pairs for iteration of symbolic maps

    def get(self):
        return self._c if self.link is None else self.linked_get()

    def set(self, content):
        if self.link is not None:
            return self.linked_set(content)
        self.ctx.note_write(self, None)
        self._c = content

    def raw_set(self, content):
        self._c = content

    @property
    def concrete(self):
        return isinstance(self.get(), dict)

    def __repr__(self):
        return f'VDict({self._c!r})'


class VSet(Linked):
    """Set: concrete spine (list of distinct values) or symbolic membership array."""

    def __init__(self, ctx, content, name=None, T=None):
        self.ctx, self._c, self.T = ctx, content, T
        self.birth = self.created = ctx.tick()
        self.key = name or ctx.site_key('set')
        ctx.objs[self.key] = self

    def get(self):
        return self._c if self.link is None else self.linked_get()

    def set(self, c):
        if self.link is not None:
            return self.linked_set(c)
        self.ctx.note_write(self, None)
        self._c = c

    def raw_set(self, c):
        self._c = c

    @property
    def concrete(self):
        return isinstance(self.get(), list)

    def __repr__(self):
        return f'VSet({self._c!r})'


class VObj:
    def __init__(self, ctx, cls, fields=None, name=None):
        self.ctx, self.cls, self.fields = ctx, cls, fields if fields is not None else {}
        self.birth = self.created = ctx.tick()
        self.key = name or ctx.site_key('obj')
        ctx.objs[self.key] = self

    def __repr__(self):
        return f'<obj {getattr(self.cls, "name", self.cls)} {self.key}>'


class Native:
    """Host function called with (interp, args, kwargs)."""

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name

    def __repr__(self):
        return f'<native {self.name}>'


# --------------------------------------------------------------------------------- encode / decode

def type_of(v):
    """Type descriptor of a value, or None if it has none."""
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, SV):
        return v.t if v.t != 'char' else 'str'
    if isinstance(v, VRef):
        return ('ref', v.cls)
    if isinstance(v, tuple):
        ts = tuple(type_of(x) for x in v)
        return None if any(t is None for t in ts) else ('tuple',) + ts
    if isinstance(v, Choice):
        t = None
        for _, a in v.alts:
            t = join_types(t, type_of(a))
        return t
    if isinstance(v, VList):
        c = v.get()
        if isinstance(c, SymSeq):
            return ('list', c.T)
        t = v.T
        for x in c:
            t = join_types(t, type_of(x))
        return ('list', t)
    if isinstance(v, VDict):
        if v.concrete:
            K, V = v.K, v.V
            for k, x in v.get().items():
                K, V = join_types(K, type_of(k)), join_types(V, type_of(x))
            return ('map', K, V)
        return ('map', v.K, v.V)
    if isinstance(v, VSet):
        t = v.T
        if v.concrete:
            for x in v.get():
                t = join_types(t, type_of(x))
        return ('set', t)
    return None


def join_types(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a == 'none':
        return b if isinstance(b, tuple) and b[0] == 'opt' else ('opt', b)
    if b == 'none':
        return join_types(b, a)
    if isinstance(a, tuple) and a[0] == 'opt':
        i = join_types(a[1], b[1] if isinstance(b, tuple) and b[0] == 'opt' else b)
        return ('opt', i)
    if isinstance(b, tuple) and b[0] == 'opt':
        return join_types(b, a)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and len(a) == len(b) \
            and a[0] in ('tuple', 'list', 'map', 'set'):
        return (a[0],) + tuple(join_types(x, y) for x, y in zip(a[1:], b[1:]))
    if {a, b} == {'str', 'char'} if isinstance(a, str) and isinstance(b, str) else False:
        return 'str'
    raise Unsupported(f'values of types {a!r} and {b!r} in the same variable')


def bytes_to_str(b):
    return b.decode('latin-1')


def zstr(s):
    """z3 string literal of a Python string (escaped so that z3 does not read escapes)."""
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '\\' or o < 32 or o > 126:
            out.append('\\u{%x}' % o)
        else:
            out.append(ch)
    return z3.StringVal(''.join(out))


def list_to_seq(ctx, items, T):
    s = sort_of(T)
    if not items:
        return SymSeq(z3.Empty(z3.SeqSort(s)), T)
    us = [z3.Unit(enc(ctx, x, T)) for x in items]
    return SymSeq(us[0] if len(us) == 1 else z3.Concat(*us), T)


def enc(ctx, v, T):
    """z3 term of a value at a type (Choices become ite terms)."""
    if isinstance(v, Choice):
        out = None
        for c, a in reversed(v.alts):
            try:
                t = enc(ctx, a, T)
            except Unsupported:
                if ctx.entails(z3.Not(c)):
                    continue
                raise
            out = t if out is None else z3.If(c, t, out)
        return out
    if isinstance(T, tuple) and T[0] == 'opt':
        _, none, some, *_ = opt_dt(T[1])
        return none if v is None else some(enc(ctx, v, T[1]))
    if T in ('str', 'char'):
        if isinstance(v, str):
            return zstr(v)
        if isinstance(v, SV) and v.t in ('str', 'char'):
            return v.e
    elif T == 'bytes':
        if isinstance(v, bytes):
            return zstr(bytes_to_str(v))
        if isinstance(v, SV) and v.t == 'bytes':
            return v.e
    elif T == 'int':
        if isinstance(v, int):
            return z3.IntVal(int(v))
        if isinstance(v, SV) and v.t == 'int':
            return v.e
        if isinstance(v, SV) and v.t == 'bool':
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    elif T == 'bool':
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SV) and v.t == 'bool':
            return v.e
    elif T == 'none':
        if v is None:
            return z3.BoolVal(True)
    elif isinstance(T, tuple):
        k = T[0]
        if k == 'ref' and isinstance(v, VRef) and v.cls == T[1]:
            return v.e
        if k == 'tuple' and isinstance(v, tuple) and len(v) == len(T) - 1:
            return tup_dt(T[1:])[1](*[enc(ctx, x, t) for x, t in zip(v, T[1:])])
        if k == 'list' and isinstance(v, VList):
            c = v.get()
            if isinstance(c, SymSeq):
                if c.T == T[1]:
                    return c.e
            else:
                return list_to_seq(ctx, c, T[1]).e
        if k == 'opaque' and isinstance(v, SV) and v.t == T:
            return v.e
        if k == 'map' and isinstance(v, VDict):
            if not v.concrete:
                if (v.K, v.V) == T[1:]:
                    return v.get()
            else:
                arr = z3.K(sort_of(T[1]), opt_dt(T[2])[1])
                for kk, x in v.get().items():
                    arr = z3.Store(arr, enc(ctx, kk, T[1]), opt_dt(T[2])[2](enc(ctx, x, T[2])))
                return arr
        if k == 'set' and isinstance(v, VSet):
            if not v.concrete:
                return v.get()
            arr = z3.K(sort_of(T[1]), z3.BoolVal(False))
            for x in v.get():
                arr = z3.Store(arr, enc(ctx, x, T[1]), True)
            return arr
        if k == 'set' and isinstance(v, VList):
            c = v.get()
            if isinstance(c, list):
                arr = z3.K(sort_of(T[1]), z3.BoolVal(False))
                for x in c:
                    arr = z3.Store(arr, enc(ctx, x, T[1]), True)
                return arr
            return ctx.seq_set(c)
    raise Unsupported(f'cannot encode {v!r} as {T!r}')


def lit_of(e):
    """Python constant of a literal z3 term, or None."""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_string_value(e):
        return unescape_z3(e.as_string())
    return None


def unescape_z3(s):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def dec(ctx, e, T):
    if T in ('str', 'int', 'bool', 'char', 'bytes'):
        e = z3.simplify(e) if not z3.is_const(e) else e
        c = lit_of(e)
        if c is not None:
            if T == 'bytes':
                return c.encode('latin-1')
            return c
        if T == 'char':
            return SV('str', e)
        return SV(T, e)
    if T == 'none':
        return None
    k = T[0]
    if k == 'opt':
        d, none, some, val, isn, iss = opt_dt(T[1])
        e = z3.simplify(e)
        if z3.is_app(e) and e.decl().eq(some):
            return dec(ctx, e.arg(0), T[1])
        if z3.is_app(e) and e.eq(none):
            return None
        return Choice([(isn(e), None), (iss(e), dec(ctx, val(e), T[1]))])
    if k == 'ref':
        return VRef(T[1], e)
    if k == 'tuple':
        acc = tup_dt(T[1:])[2]
        return tuple(dec(ctx, z3.simplify(a(e)), t) for a, t in zip(acc, T[1:]))
    if k == 'list':
        return VList(ctx, SymSeq(e, T[1]))
    if k == 'map':
        return VDict(ctx, e, K=T[1], V=T[2])
    if k == 'set':
        return VSet(ctx, e, T=T[1])
    if k == 'opaque':
        return SV(T, e)
    raise Unsupported(f'cannot decode {T!r}')


# --------------------------------------------------------------------------------- paths

from .abstract import Abs, Cannot  # noqa: E402

class Stats:
    def __init__(self):
        self.obligations = []       # dicts: name, status, time
        self.paths = 0
        self.checks = 0
        self.solver_s = 0.0
        self.feas = 0
        self.confirmed = self.refused = 0
        self.confirm_s = 0.0


class Ctx:
    """One path."""

    def __init__(self, run, prefix):
        self.run = run
        self.decisions = list(prefix)
        self.prefix_len = len(prefix)
        self.pos = 0
        self.pc = []
        self.pcset = set()
        self.native = z3.Solver()
        self.native.set('timeout', run.feas_ms)
        self.abs = z3.Solver()
        self.abs.set('timeout', run.feas_ms)
        self.tr = Abs()
        self._n = 0
        self._t = 0
        self.heap = {}
        self.loops = []            # active loop iterations (write tracking)
        self.stack = []            # call/site stack for keys
        self.site_counts = {}
        self.alloc = 1000000
        self.spec_mode = 0
        self.notes = []
        self.ghost = {}
        self.objs = {}
        self.frames = {}
        self.defs = []             # rewriting rules: (term, definition)
        self.defined = set()

    # -- definitions (specification folds): assumed, and used as rewriting rules
    def define(self, term, value):
        value = self.rewrite(value)
        if not term.eq(value) and term.get_id() not in self.defined:
            self.defined.add(term.get_id())
            self.defs.append((term, value))
        self.assume(term == value)

    def rewrite(self, e):
        if not self.defs:
            return e
        for _ in range(40):
            n = z3.substitute(e, *self.defs)
            if n.eq(e):
                return e
            e = n
        return e

    def norm(self, goal):
        """Simplified goal under the definitions."""
        return z3.simplify(self.rewrite(z3.simplify(goal)))

    # -- identity
    def tick(self):
        self._t += 1
        return self._t

    def site_key(self, kind):
        base = (kind,) + tuple(self.stack[-6:])
        n = self.site_counts.get(base, 0)
        self.site_counts[base] = n + 1
        return base + (n,)

    def fresh_name(self, hint):
        self._n += 1
        return f'{hint}!{self._n}'

    def fresh(self, T, hint='v'):
        return dec(self, self.fresh_term(T, hint), T)

    def fresh_term(self, T, hint='v'):
        e = z3.Const(self.fresh_name(hint), sort_of(T))
        if T == 'char':
            self.assume(z3.Length(e) == 1)
        if isinstance(T, tuple) and T[0] == 'ref':
            self.assume(z3.And(e >= 0, e < 1000000))
        return e

    # -- conditions
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if not z3.is_expr(c):
            raise Unsupported(f'assume {c!r}')
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        k = c.get_id()
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append(c)
        self.native.add(c)
        facts = []
        try:
            a = self.tr.term(c, facts)
        except Cannot:
            return
        self.abs.add(*facts)
        self.abs.add(a)

    def unsat(self, c, ms, native_ms=0):
        """Is the path condition with c unsatisfiable?  (False: not shown.)"""
        t0 = time.time()
        try:
            facts = []
            a = self.tr.term(c, facts)
            if facts:
                self.abs.add(*facts)
            self.abs.set('timeout', ms)
            r = self.abs.check(a)
        except Cannot:
            r = None
            native_ms = native_ms or ms
        if r != z3.unsat and (native_ms or self.run.native):
            self.native.set('timeout', native_ms or ms)
            r = confirmed(self.run, self.native.check(c), list(self.pc) + [c])
        self.run.stats.solver_s += time.time() - t0
        return r == z3.unsat

    def _known(self, c):
        if c.get_id() in self.pcset:
            return True
        n = c.arg(0) if z3.is_not(c) else z3.Not(c)
        if n.get_id() in self.pcset:
            return False
        return None

    def branch(self, c, hint=''):
        """Decide a condition: returns a Python bool and extends the path condition."""
        if isinstance(c, bool):
            return c
        if isinstance(c, SV):
            c = c.e
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = self._known(s)
        if k is None:
            k = self._known(c)
        if k is not None:
            return k
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
        else:
            self.run.stats.feas += 2
            ft = not self.unsat(s, self.run.feas_ms)
            ff = (not ft) or not self.unsat(z3.Not(s), self.run.feas_ms)
            if not ft and not ff:
                raise Infeasible()
            if ft and ff:
                self.run.push(self.decisions[:self.pos] + [False])
                d = True
            else:
                d = ft
            self.decisions = self.decisions[:self.pos] + [d]
            self.pos += 1
        self.assume(s if d else z3.simplify(z3.Not(s)))
        return d

    def free_choice(self, n=2):
        """Nondeterministic choice (all alternatives are explored)."""
        for i in range(n - 1):
            b = z3.Bool(self.fresh_name('pick'))
            if self.branch(b):
                return i
        return n - 1

    def entails(self, c, ms=None):
        """True if the path condition implies c."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c) or self._known(c):
            return True
        c = self.norm(c)
        if z3.is_true(c) or self._known(c):
            return True
        return self.unsat(z3.Not(c), ms or self.run.feas_ms, ms or self.run.feas_ms)

    def force(self, v):
        while isinstance(v, Choice):
            alts = v.alts
            for i, (c, a) in enumerate(alts):
                if i == len(alts) - 1:
                    self.assume(z3.simplify(c))
                    v = a
                    break
                if self.branch(c):
                    v = a
                    break
        return v

    # -- obligations
    def prove(self, name, goal):
        """Obligation: the path condition implies goal."""
        self.run.obligation(self, name, goal)

    # -- heap of VRef objects
    def heap_array(self, cls, field):
        k = (cls, field)
        if k not in self.heap:
            T = self.run.schema_type(cls, field)
            self.heap[k] = z3.Const(f'H_{cls}_{field}', z3.ArraySort(z3.IntSort(), sort_of(T)))
        return self.heap[k]

    def heap_read(self, ref, field):
        T = self.run.schema_type(ref.cls, field)
        if isinstance(T, tuple) and T[0] == 'list':
            return HeapList(self, ref, field, T[1])
        return dec(self, z3.simplify(z3.Select(self.heap_array(ref.cls, field), ref.e)), T)

    def heap_write(self, cls, field, ref_e, val_e):
        self.note_heap(cls, field)
        self.heap[(cls, field)] = z3.Store(self.heap_array(cls, field), ref_e, val_e)

    def note_heap(self, cls, field):
        for lp in self.loops:
            lp.note(('heap', cls, field))

    def note_write(self, obj, field):
        for lp in self.loops:
            if obj.birth <= lp.start:
                if getattr(obj, 'created', -1) > lp.start:
                    raise Unsupported('loop changes a global object first used inside it')
                lp.note(('obj', obj.key, field), obj)

    def new_ref(self, cls):
        self.alloc += 1
        return VRef(cls, z3.IntVal(self.alloc))

    # -- lists
    def seq_set(self, s):
        """Set of the elements of a sequence term (uninterpreted; unfolded by the engine)."""
        f = z3.Function('setof_%s' % abs(hash(str(sort_of(s.T)))), z3.SeqSort(sort_of(s.T)),
                        z3.ArraySort(sort_of(s.T), z3.BoolSort()))
        self.unfold_set(s.e, f)
        return f(s.e)

    def unfold_set(self, e, f):
        # setof(a ++ unit(x)) = store(setof(a), x, true)
        parts = flat_concat(e)
        if len(parts) == 1 and not is_unit(parts[0]) and not is_empty(parts[0]):
            return
        acc, cur = None, None
        if not parts or is_empty(parts[0]):
            return self.assume(f(e) == z3.K(e.sort().basis(), z3.BoolVal(False)))
        if is_unit(parts[0]):
            cur = z3.Store(z3.K(e.sort().basis(), z3.BoolVal(False)), parts[0].arg(0), True)
        else:
            cur = f(parts[0])
        for p in parts[1:]:
            if not is_unit(p):
                raise Unsupported('set view of concatenated sequences')
            cur = z3.Store(cur, p.arg(0), True)
        self.assume(f(e) == cur)


def is_unit(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_UNIT


def is_empty(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_EMPTY


def flat_concat(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for a in e.children():
            out += flat_concat(a)
        return out
    return [e]


def nested(e, seen):
    """Does a term have sequences of other things than numbers?"""
    stack = [e]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        t = e.sort()
        if t.kind() == z3.Z3_SEQ_SORT and not t.eq(z3.StringSort()) and not t.basis().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT):
            return True
        if z3.is_app(e):
            stack += e.children()
    return False


def confirmed(run, r, formulas):
    """The answer of the solver with its theory of sequences.

    z3 sometimes calls the length of a list of texts contradictory (5 == Length(x) alone, in some states of the process), so
    an unsatisfiable set of formulas about lists must be so for another solver (cvc5) or another configuration too.
    """
    if r != z3.unsat:
        return r
    seen = set()
    if not any(nested(f, seen) for f in formulas):
        return r
    t0 = time.time()
    try:
        s = z3.Solver()
        s.add(*formulas)
        from . import cross
        if cross.cvc5_unsat(s, 3000) == 'unsat':
            run.stats.confirmed += 1
            return r
        for seed in 1, 2:
            s = z3.Solver()
            s.set('timeout', 3000)
            s.set('smt.arith.solver', 2)
            s.set('smt.random_seed', seed)
            s.add(*formulas)
            if s.check() == z3.unsat:
                run.stats.confirmed += 1
                return r
        run.stats.refused += 1
        return z3.unknown
    finally:
        run.stats.confirm_s += time.time() - t0


class Run:
    """Exploration of all the paths of one verification task."""

    def __init__(self, schemas, feas_ms=400, prove_ms=10000, max_paths=20000, deadline=None):
        self.schemas = schemas
        self.feas_ms, self.prove_ms = feas_ms, prove_ms
        self.max_paths = max_paths
        self.stats = Stats()
        self.work = []
        self.loopinfo = {}
        self.unsteady = set()     # loops over lists that change meanwhile
        self.changed = False
        self.results = {}          # name -> list of dict
        self.deadline = deadline
        self.unsupported = []
        self.trusted = set()
        self.used_contracts = set()
        self.cross = None
        self.normal_ends = 0
        self.covered = False
        self.called = set()
        self.cand_ms = 500
        self.native = False
        self.debug = False

    def schema_type(self, cls, field):
        try:
            return self.schemas[cls][field]
        except KeyError:
            raise Unsupported(f'unknown field {cls}.{field}') from None

    def push(self, prefix):
        self.work.append(prefix)

    def obligation(self, ctx, name, goal):
        fresh = ctx.pos >= ctx.prefix_len
        if not fresh:
            return
        r = self.results.setdefault(name, [])
        if isinstance(goal, SV):
            goal = goal.e
        if goal is True:
            r.append(dict(status='proved', how='trivial', t=0))
            return
        if goal is not False:
            goal = ctx.norm(goal)
            if z3.is_true(goal) or ctx._known(goal):
                r.append(dict(status='proved', how='rewriting', t=0))
                return
        t0 = time.time()
        st, model = self.check(ctx, goal)
        dt = time.time() - t0
        self.stats.solver_s += dt
        self.stats.checks += 1
        d = dict(status=st, how=self.how, t=dt)
        if st != 'proved':
            d['goal'] = str(goal)[:600]
            d['model'] = model
            d['path'] = [str(c)[:200] for c in ctx.pc[-25:]]
            d['notes'] = list(ctx.notes)
        r.append(d)

    def check(self, ctx, goal):
        try:
            facts = []
            a = ctx.tr.term(z3.Not(goal), facts) if goal is not False else None
            ctx.abs.add(*facts)
            ctx.abs.set('timeout', min(self.prove_ms, 8000))
            r = ctx.abs.check(a) if a is not None else ctx.abs.check()
            ctx.abs.set('timeout', self.feas_ms)
            if r == z3.unsat:
                if self.cross and goal is not False:
                    t = z3.Solver()
                    t.add(*ctx.pc)
                    t.add(z3.Not(goal))
                    self.cross(t)
                self.how = 'z3 with strings and sequences uninterpreted'
                return 'proved', None
        except Cannot:
            pass
        self.how = 'z3'
        s = z3.Solver()
        s.set('timeout', self.prove_ms)
        s.add(*ctx.pc)
        if goal is not False:
            s.add(z3.Not(goal))
        r = confirmed(self, s.check(), s.assertions())
        if r == z3.unsat:
            if self.cross and goal is not False:
                self.cross(s)
            return 'proved', None
        if r == z3.sat:
            m = s.model()
            return 'failed', {str(d): str(m[d])[:200] for d in m.decls()[:60]}
        return 'unknown', s.reason_unknown()

    def explore(self, fn):
        """Run fn(ctx) over all paths, to the fixpoint of the loop information."""
        for rnd in range(60):
            self.changed = False
            self.results = {}
            self.unsupported = []
            self.normal_ends = 0
            self.covered = False
            self.work = [[]]
            n = since = 0
            while self.work:
                prefix = self.work.pop()
                n += 1
                self.stats.paths += 1
                if self.changed:
                    since += 1
                    if since > 60:
                        break
                if n > self.max_paths:
                    raise Unsupported('too many paths')
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget exhausted')
                ctx = Ctx(self, prefix)
                try:
                    fn(ctx)
                    self.normal_ends += 1
                    if not self.covered and confirmed(self, ctx.native.check(), ctx.pc) != z3.unsat:
                        self.covered = True
                except (Infeasible, PathEnd):
                    pass
                except Unsupported as e:
                    # is the path feasible at all?
                    if confirmed(self, ctx.native.check(), ctx.pc) != z3.unsat:
                        self.unsupported.append((str(e), [str(c)[:160] for c in ctx.pc[-12:]]))
                        if len(self.unsupported) > 20 and not self.changed:
                            break
            self.rounds = rnd + 1
            self.npaths = n
            if not self.changed:
                return
        raise Unsupported('loop invariants did not stabilize')
