"""Interpreter of the verified source: Python AST over symbolic values, one path at a time."""
import ast
import os
import sys

import z3

from . import core
from .core import (Choice, ExcV, HeapList, Infeasible, Native, PathEnd, PyRaise, SV, SymSeq, Unsupported,
                   VDict, VList, VObj, VRef, VSet, dec, enc, join_types, lit_of, list_to_seq, sort_of,
                   type_of, zstr)

MAX_DEPTH = 80
MAX_UNROLL = 400


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Frame:
    """Variables of a running function (or module, class body, comprehension)."""

    def __init__(self, ctx, mod, parent=None, fn=None, key=None):
        self.ctx, self.mod, self.parent, self.fn = ctx, mod, parent, fn
        self.vars = {}
        self.birth = ctx.tick() if ctx else -1
        self.key = key or (ctx.site_key('frame') if ctx else None)
        self.nonlocals = set()
        self.yields = None
        self.exc = None
        if ctx:
            ctx.frames[self.key] = self

    def set(self, name, v):
        f = self
        if name in self.nonlocals:
            f = self.parent
            while f is not None and name not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported(f'global or nonlocal {name}')
        if f.ctx:
            for lp in f.ctx.loops:
                if f.birth <= lp.start:
                    lp.note(('var', f.key, name), f)
        f.vars[name] = v


class ModuleV:
    def __init__(self, name, path=None):
        self.name, self.path, self.vars = name, path, LazyVars()

    def __repr__(self):
        return f'<module {self.name}>'


class LazyVars(dict):
    """Variables of a module; top level statements without other effects run on first use."""

    def __init__(self):
        dict.__init__(self)
        self.thunks = {}

    def delay(self, names, run):
        for n in names:
            self.thunks[n] = run

    def __contains__(self, n):
        return n in self.thunks or dict.__contains__(self, n)

    def __getitem__(self, n):
        t = self.thunks.pop(n, None)
        if t is not None:
            for k in [k for k, x in self.thunks.items() if x is t]:
                del self.thunks[k]
            t()
        return dict.__getitem__(self, n)

    def get(self, n, d=None):
        return self[n] if n in self else d

    def __setitem__(self, n, v):
        self.thunks.pop(n, None)
        dict.__setitem__(self, n, v)


def _defines(st):
    """Names defined by a top level statement that can run later."""
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
        return [st.targets[0].id]
    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
        return [st.target.id]
    if isinstance(st, ast.ImportFrom):
        return [a.asname or a.name for a in st.names]
    if isinstance(st, ast.Import):
        return [a.asname or a.name.split('.')[0] for a in st.names]
    return None


class FuncV:
    def __init__(self, node, mod, name, parent=None, cls=None, defaults=(), kwdefaults=None, deco=()):
        self.node, self.mod, self.name, self.parent, self.cls = node, mod, name, parent, cls
        self.defaults, self.kwdefaults, self.deco = defaults, kwdefaults or {}, deco
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)

    @property
    def qual(self):
        c = f'{self.cls.name}.' if self.cls else ''
        return f'{self.mod.name}.{c}{self.name}'

    def __repr__(self):
        return f'<func {self.qual}>'


class ClassV:
    def __init__(self, name, mod, bases=()):
        self.name, self.mod, self.bases, self.vars = name, mod, bases, {}

    def lookup(self, n):
        if n in self.vars:
            return self.vars[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return f'<class {self.name}>'


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def __repr__(self):
        return f'<bound {self.fn} of {self.obj}>'


class NativeClass:
    """Class modelled by host code: methods(interp, obj, *args, **kw)."""

    def __init__(self, name, methods=None, props=None, init=None):
        self.name, self.methods, self.props, self.init = name, methods or {}, props or {}, init

    def __repr__(self):
        return f'<native class {self.name}>'


class Host:
    """Opaque concrete host object compared by identity (functions of the standard library, ...)."""

    def __init__(self, obj):
        self.obj = obj


_YIELDS = {}


def _has_yield(node):
    if id(node) not in _YIELDS:
        _YIELDS[id(node)] = (node, _has_yield_(node))
    return _YIELDS[id(node)][1]


def _has_yield_(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Gen:
    """Evaluated generator (list of yielded values, in order)."""

    def __init__(self, lst):
        self.lst = lst


class Mapped:
    """map() or filter() of one iterable, not evaluated yet."""

    def __init__(self, fn, v, keep):
        self.fn, self.v, self.keep = fn, v, keep


class LazyGen:
    """Generator expression not evaluated yet."""

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


def _unchanged(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return a is b or len(a) == len(b) and all(x is y for x, y in zip(a, b))
    return not isinstance(a, list) and not isinstance(b, list) and a.e.eq(b.e)


class SymIter:
    """Iterable of unknown length: number of elements and the i-th element."""

    def __init__(self, n, elem, what='seq', seq=None):
        self.n, self.elem, self.what = n, elem, what
        self.seq = seq         # (term, element type) if these are the elements of a list


class Source:
    """Parsed modules of the repository under verification (and spec modules)."""

    def __init__(self, root):
        self.root = root
        self.trees = {}
        self.overlay = {}

    def path(self, name):
        if name in self.overlay:
            return self.overlay[name]
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py')
        if os.path.isfile(base + '.py'):
            return base + '.py'
        return None

    def tree(self, name):
        if name not in self.trees:
            p = self.path(name)
            if p is None:
                return None
            with open(p, encoding='utf-8') as f:
                text = f.read()
            try:
                t = ast.parse(text)
            except SyntaxError as e:
                raise Unsupported(f'{p}: {e}') from None
            self.trees[name] = (t, p)
        return self.trees[name]


class Interp:
    """Evaluator bound to one path."""

    def __init__(self, ctx, source, env):
        self.ctx, self.run, self.source, self.env = ctx, ctx.run, source, env
        self.modules = {}
        self.ghosts = []         # ghost loop invariants: f(I, index, length) -> {name: formula}
        self.instances = []      # f(I, index, length): instances of what holds when an iteration starts
        self.filters = []        # (term of a list, list it selects from, condition): iterated as that list
        self.contracts = {}      # qualified name -> host function(interp, args, kwargs)
        self.folds = []
        self.templates = []
        self.elem_facts = []     # (list term, host fn(elem) -> assumption)
        self.depth = 0
        ctx.interp = self
        from . import lib
        self.lib = lib
        self.builtins = lib.BUILTINS

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.env:
            m = self.env[name]
            m = m(self) if callable(m) and not isinstance(m, ModuleV) else m
            self.modules[name] = m
            return m
        t = self.source.tree(name)
        if t is None:
            m = self.lib.external_module(self, name)
            self.modules[name] = m
            return m
        tree, path = t
        m = ModuleV(name, path)
        self.modules[name] = m
        fr = Frame(self.ctx, m, key=('module', name))
        fr.vars = m.vars
        m.vars['__name__'] = name
        m.vars['__file__'] = path
        for st in tree.body:
            if _is_main_guard(st):
                continue
            names = _defines(st)
            if names:
                m.vars.delay(names, lambda st=st: self.top_level(st, fr, name))
            else:
                self.top_level(st, fr, name)
        return m

    def top_level(self, st, fr, name):
        ctx = self.ctx
        stack, loops, depth = ctx.stack, ctx.loops, self.depth
        ctx.stack, ctx.loops = [('module', name, st.lineno)], []
        self.depth = 0
        t0 = ctx.tick()
        try:
            self.stmt(st, fr)
        finally:
            ctx.stack, ctx.loops, self.depth = stack, loops, depth
        for o in ctx.objs.values():
            if o.birth >= t0:
                o.birth = -1

    def import_attr(self, mod, name):
        if name in mod.vars:
            return mod.vars[name]
        full = f'{mod.name}.{name}'
        if self.source.path(full):
            return self.module(full)
        raise Unsupported(f'import {name} from {mod.name}')

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.do_yield(self.ev(s.value.value, fr) if s.value.value else None, fr)
            return
        if isinstance(s.value, ast.YieldFrom):
            self.do_yield_from(self.ev(s.value.value, fr), fr)
            return
        self.ev(s.value, fr)

    def do_yield(self, v, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            raise Unsupported('yield outside of a generator')
        if callable(f.yields):
            return f.yields(v)
        self.lib.list_append(self, f.yields, v)

    def do_yield_from(self, v, fr):
        f = fr
        while f is not None and f.yields is None:
            f = f.parent
        self.lib.list_extend(self, f.yields, v)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            new = self.aug(s.op, cur, self.ev(s.value, fr))
            if new is not None:
                fr.set(t.id, new[0])
        elif isinstance(t, ast.Attribute):
            o = self.force(self.ev(t.value, fr))
            cur = self.getattr(o, t.attr)
            new = self.aug(s.op, cur, self.ev(s.value, fr))
            if new is not None:
                self.setattr(o, t.attr, new[0])
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, fr))
            k = self.ev(t.slice, fr)
            cur = self.lib.getitem(self, o, k)
            new = self.aug(s.op, cur, self.ev(s.value, fr))
            if new is not None:
                self.lib.setitem(self, o, k, new[0])
        else:
            raise Unsupported('augmented assignment target')

    def aug(self, op, cur, v):
        cur = self.force(cur)
        if isinstance(op, ast.Add) and isinstance(cur, VList):
            self.lib.list_extend(self, cur, v)
            return None
        if isinstance(op, ast.BitOr) and isinstance(cur, (VSet, VDict)):
            self.lib.call_method(self, cur, 'update', [v], {})
            return None
        return (self.binop(op, cur, v),)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.force(self.ev(t.value, fr)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.ev(t.value, fr))
            if isinstance(t.slice, ast.Slice):
                self.lib.set_slice(self, o, t.slice, v, fr)
            else:
                self.lib.setitem(self, o, self.ev(t.slice, fr), v)
        else:
            raise Unsupported(f'assignment to {type(t).__name__}')

    def unpack(self, elts, v, fr):
        v = self.force(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        it = self.lib.iterate(self, v)
        if isinstance(it, SymIter):
            if star:
                raise Unsupported('starred unpacking of a symbolic sequence')
            if self.ctx.branch(it.n == len(elts)):
                items = [it.elem(z3.IntVal(i)) for i in range(len(elts))]
            else:
                raise PyRaise(ExcV(ValueError, ('unpack',), implicit=True))
        else:
            items = it
        if star:
            i = star[0]
            n = len(elts) - 1
            if len(items) < n:
                raise PyRaise(ExcV(ValueError, ('unpack',), implicit=True))
            after = len(elts) - i - 1
            mid = items[i:len(items) - after]
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, fr)
            self.assign(elts[i].value, VList(self.ctx, list(mid)), fr)
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x, fr)
            return
        if len(items) != len(elts):
            raise PyRaise(ExcV(ValueError, ('unpack',), implicit=True))
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, fr))
                self.lib.delitem(self, o, self.ev(t.slice, fr))
            else:
                raise Unsupported('del target')

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(ExcV(AssertionError, (), implicit=True))

    def s_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.exc is None:
                f = f.parent
            if f is None:
                raise Unsupported('bare raise without exception')
            raise PyRaise(f.exc)
        v = self.force(self.ev(s.exc, fr))
        if isinstance(v, (type, ClassV)):
            v = ExcV(v, ())
        if not isinstance(v, ExcV):
            raise Unsupported(f'raise {v!r}')
        v.implicit = False
        v.where = f'{fr.mod.name}:{s.lineno}'
        raise PyRaise(v)

    def s_Global(self, s, fr):
        raise Unsupported('global statement')

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Try(self, s, fr):
        def run_body():
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                exc = e.exc
                for h in s.handlers:
                    if self.matches(exc, h, fr):
                        old = fr.exc
                        fr.exc = exc
                        try:
                            if h.name:
                                fr.set(h.name, exc)
                            self.block(h.body, fr)
                        finally:
                            fr.exc = old
                        return
                raise
            else:
                self.block(s.orelse, fr)
        if not s.finalbody:
            return run_body()
        try:
            run_body()
        except (Infeasible, PathEnd, Unsupported):
            raise
        except (PyRaise, _Return, _Break, _Continue):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def matches(self, exc, h, fr):
        if h.type is None:
            return True
        t = self.force(self.ev(h.type, fr))
        return self.exc_matches(exc, t)

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, self.force(x)) for x in t)
        if isinstance(t, type) and isinstance(exc.cls, type):
            return issubclass(exc.cls, t)
        if isinstance(exc.cls, ClassV):
            if exc.cls is t:
                return True
            return t in (Exception, BaseException)
        return False

    def s_With(self, s, fr):
        self.with_items(s, list(s.items), fr)

    def with_items(self, s, items, fr):
        if not items:
            return self.block(s.body, fr)
        it = items[0]
        v = self.force(self.ev(it.context_expr, fr))

        def body(x):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, fr)
            self.with_items(s, items[1:], fr)
        self.lib.enter_context(self, v, body)

    def s_FunctionDef(self, s, fr):
        fr.set(s.name, self.make_func(s, fr, s.name))

    def make_func(self, node, fr, name, cls=None):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        deco = [self.ev(d, fr) for d in getattr(node, 'decorator_list', [])]
        f = FuncV(node, fr.mod, name, fr if fr.key[0] != 'module' else None, cls, defaults, kwd, deco)
        for d in deco:
            if d == 'spec' or getattr(d, 'name', None) in ('contextmanager', 'staticmethod', 'property',
                                                           'classmethod'):
                continue
            raise Unsupported(f'decorator of {name}')
        return f

    def s_ClassDef(self, s, fr):
        c = ClassV(s.name, fr.mod, tuple(self.ev(b, fr) for b in s.bases))
        cf = Frame(self.ctx, fr.mod, fr, key=('class', s.name))
        cf.vars = c.vars
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                c.vars[st.name] = self.make_func(st, Frame(self.ctx, fr.mod, None, key=('module', '')),
                                                 st.name, cls=c) if fr.key[0] == 'module' and \
                    not st.decorator_list and not st.args.defaults and not st.args.kwonlyargs else \
                    self.make_func(st, fr, st.name, cls=c)
            else:
                self.stmt(st, cf)
        fr.set(s.name, c)

    def s_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                fr.set(a.asname, self.module(a.name))
            else:
                top = a.name.split('.')[0]
                if top == 'mdpo':
                    self.module(a.name)
                m = self.module(top)
                fr.set(top, m)

    def s_ImportFrom(self, s, fr):
        if s.level:
            pkg = fr.mod.name.split('.')
            is_pkg = fr.mod.path and fr.mod.path.endswith('__init__.py')
            base = pkg if is_pkg else pkg[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        m = self.module(name)
        for a in s.names:
            fr.set(a.asname or a.name, self.import_attr(m, a.name))

    # ------------------------------------------------------------------ loops
    def s_For(self, s, fr):
        v = self.ev(s.iter, fr)
        if isinstance(s.iter, (ast.GeneratorExp, ast.Call)) and self.lazy_for(s, v, fr):
            return
        v = self.force(v)
        if isinstance(v, VObj) and '__iter__' in getattr(v.cls, 'methods', {}):
            v = self.force(v.cls.methods['__iter__'](self, v))
        it = self.lib.iterate(self, v)
        src = self.lib.iterated(self, v)
        site = (fr.mod.name, s.lineno, s.col_offset)
        if site in self.run.unsteady and isinstance(it, SymIter):
            # the list changes while it is iterated: any elements, any number of times
            if src is not v:
                raise Unsupported('a list changes while it is iterated')
            n, T = self.ctx.fresh('int', 'times').e, src.get().T
            self.ctx.assume(n >= 0)
            it, src = SymIter(n, lambda i: self.ctx.fresh(T, 'element')), None

        def body(x):
            self.assign(s.target, x, fr)
            before = src.get() if src is not None else None
            again = None
            try:
                self.block(s.body, fr)
            except _Continue as e:
                again = e
            if src is not None and not _unchanged(before, src.get()):
                if not isinstance(it, SymIter):
                    raise Unsupported('a list changes while it is iterated')
                self.run.unsteady.add(site)
                self.run.changed = True
                raise PathEnd()
            if again is not None:
                raise again
        self.for_loop(s, it, body, lambda: self.block(s.orelse, fr))

    def lazy_for(self, s, v, fr):
        """Loop over a generator expression or a map, taken one element at a time."""
        if isinstance(v, Mapped):
            it = self.lib.iterate(self, self.force(v.v))

            def body(x):
                if v.keep:
                    if not self.truth(x if v.fn is None else self.call(v.fn, [x])):
                        return
                else:
                    x = self.call(v.fn, [x])
                self.assign(s.target, x, fr)
                self.block(s.body, fr)
        elif isinstance(v, LazyGen) and len(v.node.generators) == 1:
            g = v.node.generators[0]
            f = Frame(self.ctx, v.frame.mod, v.frame, key=('comp',) + self.ctx.site_key('comp'))
            it = self.lib.iterate(self, self.force(self.ev(g.iter, v.frame)))

            def body(x):
                self.assign(g.target, x, f)
                for c in g.ifs:
                    if not self.truth(self.ev(c, f)):
                        return
                self.assign(s.target, self.ev(v.node.elt, f), fr)
                self.block(s.body, fr)
        else:
            return False
        self.for_loop(s, it, body, lambda: self.block(s.orelse, fr))
        return True

    def for_loop(self, node, it, body, orelse=lambda: None):
        if not isinstance(it, SymIter):
            for x in it:
                try:
                    body(x)
                except _Break:
                    return
                except _Continue:
                    continue
            orelse()
            return
        from .loops import sym_for
        sym_for(self, node, it, body, orelse)

    def s_While(self, s, fr):
        from .loops import while_loop
        while_loop(self, s, lambda: self.truth(self.ev(s.test, fr)), lambda: self.block(s.body, fr),
                   lambda: self.block(s.orelse, fr))

    # ------------------------------------------------------------------ expressions
    def force(self, v):
        if isinstance(v, Choice):
            v = self.ctx.force(v)
        if isinstance(v, LazyGen):
            v = self.lib.run_gen(self, v)
        if isinstance(v, Mapped):
            v = self.lib.run_map(self, v)
        return v

    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {e.lineno}')
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            f = f.parent
        if n in fr.mod.vars:
            return fr.mod.vars[n]
        if n in self.builtins:
            return self.builtins[n]
        raise Unsupported(f'unbound name {n} in {fr.mod.name}')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.key and f.key[0] == 'comp' and f.parent is not None:
            f = f.parent
        f.set(e.target.id, v)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.force(self.ev(e.value, fr)), e.attr)

    def e_Subscript(self, e, fr):
        o = self.force(self.ev(e.value, fr))
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            g = lambda x: None if x is None else self.force(self.ev(x, fr))
            return self.lib.getslice(self, o, g(s.lower), g(s.upper), g(s.step))
        return self.lib.getitem(self, o, self.ev(e.slice, fr))

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            if isinstance(t, bool):
                return not t
            return SV('bool', z3.simplify(z3.Not(t)))
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, SV) and v.t == 'int':
                return SV('int', -v.e)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        return self.lib.binop(self, op, self.force(a), self.force(b))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            out = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return out
            if not self.truth(out):
                return False
            left = right
        return out

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return VList(self.ctx, list(self.elts(e.elts, fr)))

    def e_Set(self, e, fr):
        s = VSet(self.ctx, [])
        for x in self.elts(e.elts, fr):
            self.lib.set_add(self, s, x)
        return s

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.lib.iterate(self, self.force(self.ev(x.value, fr)))
                if isinstance(it, SymIter):
                    raise Unsupported('starred symbolic sequence')
                out += it
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = VDict(self.ctx, {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.call_method(self, d, 'update', [self.ev(v, fr)], {})
            else:
                kk = self.ev(k, fr)
                self.lib.setitem(self, d, kk, self.ev(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.force(self.ev(v.value, fr))
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, fr)
                    if sp != '':
                        parts.append(self.lib.format_value(self, x, v.conversion, sp))
                        continue
                parts.append(self.lib.format_value(self, x, v.conversion, ''))
        return self.lib.concat_strs(self, parts)

    def e_Lambda(self, e, fr):
        f = FuncV(e, fr.mod, '<lambda>', fr, None, [self.ev(d, fr) for d in e.args.defaults],
                  {k.arg: self.ev(d, fr) for k, d in zip(e.args.kwonlyargs, e.args.kw_defaults)
                   if d is not None})
        f.is_gen = False
        return f

    def e_GeneratorExp(self, e, fr):
        return LazyGen(e, fr)

    def e_ListComp(self, e, fr):
        out = VList(self.ctx, [])
        self.comp(e.generators, fr, lambda f: self.lib.list_append(self, out, self.ev(e.elt, f)), e)
        return out

    def e_SetComp(self, e, fr):
        out = VSet(self.ctx, [])
        self.comp(e.generators, fr, lambda f: self.lib.set_add(self, out, self.ev(e.elt, f)), e)
        return out

    def e_DictComp(self, e, fr):
        out = VDict(self.ctx, {})
        self.comp(e.generators, fr,
                  lambda f: self.lib.setitem(self, out, self.ev(e.key, f), self.ev(e.value, f)), e)
        return out

    def comp(self, gens, fr, emit, node):
        """Comprehension loops: emit(frame) is run for each combination."""
        f = Frame(self.ctx, fr.mod, fr, key=('comp',) + self.ctx.site_key('comp'))

        def go(k):
            if k == len(gens):
                emit(f)
                return
            g = gens[k]
            it = self.lib.iterate(self, self.force(self.ev(g.iter, f if k else fr)))

            def body(x):
                self.assign(g.target, x, f)
                for c in g.ifs:
                    if not self.truth(self.ev(c, f)):
                        return
                go(k + 1)
            self.for_loop(g, it, body)
        go(0)

    def e_Yield(self, e, fr):
        self.do_yield(self.ev(e.value, fr) if e.value else None, fr)
        return None

    def e_YieldFrom(self, e, fr):
        self.do_yield_from(self.ev(e.value, fr), fr)
        return None

    def external_base(self, e, fr):
        """super() of a class whose base is outside the repository: its methods have no modelled effect."""
        me = fr.vars.get('self')
        if e.args or not isinstance(me, VObj) or not isinstance(me.cls, ClassV) or \
                any(isinstance(b, ClassV) for b in me.cls.bases):
            raise Unsupported('super')
        self.run.trusted.add(f'methods inherited by {me.cls.name} from outside the repository')
        c = NativeClass('super')
        c.fallback = lambda I, o, n: Native(lambda I, a, k: None, 'super().' + n)
        return VObj(self.ctx, c, {})

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.external_base(e, fr)
        f = self.force(self.ev(e.func, fr))
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.lib.iterate(self, self.force(self.ev(a.value, fr)))
                if isinstance(it, SymIter):
                    raise Unsupported('starred symbolic arguments')
                args += it
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, fr))
                if not isinstance(d, VDict) or not d.concrete:
                    raise Unsupported('symbolic keyword arguments')
                kw.update(d.get())
            else:
                kw[k.arg] = self.ev(k.value, fr)
        self.ctx.stack.append((fr.mod.name, e.lineno, e.col_offset))
        try:
            return self.call(f, args, kw)
        finally:
            self.ctx.stack.pop()

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        f = self.force(f)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Native):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kw))
        if isinstance(f, ClassV):
            return self.construct(f, args, kw)
        if isinstance(f, NativeClass):
            return f.init(self, list(args), dict(kw))
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcV(f, tuple(args))
        return self.lib.call_host(self, f, list(args), dict(kw))

    def construct(self, c, args, kw):
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in c.bases):
            return ExcV(c, tuple(args))
        if f'{c.mod.name}.{c.name}' in self.contracts:
            return self.contracts[f'{c.mod.name}.{c.name}'](self, list(args), dict(kw))
        o = VObj(self.ctx, c)
        self.reg(o)
        init = c.lookup('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), dict(kw))
        return o

    def reg(self, o):
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(ExcV(TypeError, (f'{f.name}() takes {len(names)} positional arguments',),
                               implicit=True))
        for n, v in zip(names, args):
            vals[n] = v
        extra = tuple(args[len(names):])
        if a.vararg:
            vals[a.vararg.arg] = extra
        kwnames = {x.arg for x in a.args + a.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k in kwnames:
                if k in vals:
                    raise PyRaise(ExcV(TypeError, ('multiple values for argument',), implicit=True))
                vals[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise PyRaise(ExcV(TypeError, (f'{f.name}() got an unexpected keyword argument {k!r}',),
                                   implicit=True))
        if a.kwarg:
            vals[a.kwarg.arg] = VDict(self.ctx, rest)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(n, d)
        for k, d in f.kwdefaults.items():
            vals.setdefault(k, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise PyRaise(ExcV(TypeError, (f'{f.name}() missing argument {n!r}',), implicit=True))
        return vals

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.qual)
        if c is not None:
            vals = self.bind(f, args, kw)
            self.run.used_contracts.add(f.qual)
            return c(self, vals)
        if any(getattr(d, 'name', None) == 'contextmanager' for d in f.deco):
            return self.lib.CtxMgr(f, args, kw)
        return self.call_raw(f, args, kw)

    def call_raw(self, f, args, kw, yields=None):
        vals = self.bind(f, args, kw)
        self.depth += 1
        if self.depth > MAX_DEPTH:
            self.depth -= 1
            raise Unsupported(f'recursion too deep in {f.qual}')
        self.run.called.add(f.qual)
        fr = Frame(self.ctx, f.mod, f.parent, f)
        fr.vars.update(vals)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if f.is_gen and yields is None:
                fr.yields = VList(self.ctx, [])
                self.reg(fr.yields)
            elif yields is not None:
                fr.yields = yields
            try:
                self.block(f.node.body, fr)
            except _Return as r:
                if not f.is_gen:
                    return r.v
            return Gen(fr.yields) if f.is_gen and yields is None else None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, n):
        return self.lib.getattr_(self, self.force(o), n)

    def setattr(self, o, n, v):
        o = self.force(o)
        if isinstance(o, VObj):
            self.ctx.note_write(o, n)
            o.fields[n] = v
        elif isinstance(o, VRef):
            T = self.run.schema_type(o.cls, n)
            v = self.lib.coerce(self, v, T)
            self.ctx.heap_write(o.cls, n, o.e, enc(self.ctx, v, T))
        elif isinstance(o, (FuncV, ExcV)):
            raise Unsupported('attribute assignment')
        else:
            raise Unsupported(f'attribute assignment to {o!r}')

    # ------------------------------------------------------------------ conditions
    def truth_term(self, v):
        return self.lib.truth_term(self, v)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        t = self.truth_term(v)
        if isinstance(t, bool):
            return t
        return self.ctx.branch(t)

    def eq(self, a, b):
        """bool or z3 formula: values are equal."""
        return self.lib.eq_term(self, a, b)

    def raise_(self, cls, *args):
        raise PyRaise(ExcV(cls, args, implicit=True))


def _is_main_guard(st):
    return (isinstance(st, ast.If) and isinstance(st.test, ast.Compare)
            and isinstance(st.test.left, ast.Name) and st.test.left.id == '__name__')
