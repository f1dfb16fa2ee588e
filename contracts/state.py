"""Unknown states of the extractor and the translator, unknown events, and comparison of states."""
import ast

from contracts.common import *

# ---------------------------------------------------------------------------- lists of any length of mutable elements


class Stack:
    """List: an unknown prefix of any length (counted by kind of element) and known last elements."""

    def __init__(self, h, name, make, kinds=1, counts=None):
        self.h, self.name, self.make = h, name, make
        self.counts = counts if counts is not None else [h.fresh('int', f'{name}_{j}').e for j in range(kinds)]
        for c in self.counts if counts is None else ():
            h.assume(c >= 0)
        self.tail = []

    def obj(self):
        return VObj(self.h.ctx, STACK, {'stack': self})

    def size(self):
        return z3.simplify(z3.Sum(self.counts) + len(self.tail)) if self.counts else z3.IntVal(len(self.tail))

    def need(self, I):
        """Makes the last element known (IndexError if there is none)."""
        if self.tail:
            return
        for j, c in enumerate(self.counts):
            if I.ctx.branch(c > 0):
                self.counts[j] = z3.simplify(c - 1)
                self.tail.insert(0, self.make(j))
                return
        raise core.PyRaise(core.ExcV(IndexError, ('list index out of range',), implicit=True))


def _st(f):
    def g(I, o, *a):
        return f(I, o.fields['stack'], *a)
    return g


def _getitem(I, s, k):
    k = I.force(k)
    if k != -1:
        raise Unsupported('index of a list of unknown length')
    s.need(I)
    return s.tail[-1]


def _pop(I, s, *a):
    if a and I.force(a[0]) != -1:
        raise Unsupported('pop of a list of unknown length')
    s.need(I)
    return s.tail.pop()


STACK = NativeClass('list', {
    'append': _st(lambda I, s, x: s.tail.append(x)), 'pop': _st(_pop), '__getitem__': _st(_getitem),
    '__len__': _st(lambda I, s: lib.mk(I, s.size(), 'int')), '__bool__': _st(lambda I, s: z3.simplify(s.size() > 0))})


# ---------------------------------------------------------------------------- states

LISTS = {'_ul_marks': ('stack', 'str'), '_ol_marks': ('stack', 'ol'), '_current_list_type': ('stack', 'list'),
         'outputlines': ('list', 'str'), '_current_thead_aligns': ('list', 'int'),
         'translated_entries': ('list', ('ref', 'POEntry')), 'disabled_entries': ('list', ('ref', 'POEntry')),
         'found_entries': ('list', ('ref', 'POEntry'))}
NONES = {'link_references': ('opt', ('list', ('tuple', 'str', 'str', ('opt', 'str')))),
         '_codespan_start_index': ('opt', 'int'), '_current_top_level_block_type': ('opt', 'int'),
         '_saved_files_changed': ('opt', 'bool'), 'pofile': ('ref', 'POFile'), 'content': 'str',
         'translations': ('map', 'str', 'str'), 'translations_with_msgctxt': ('map', 'str', ('map', 'str', 'str'))}


MUTATED = {}


def mutated(h, cls):
    """Attributes of the class changed by methods other than the constructor, found in the source."""
    mod, name = cls.rsplit('.', 1)
    tree = h.I.source.tree(mod)[0]
    if (cls, id(tree)) in MUTATED:
        return MUTATED[cls, id(tree)]
    out = set()
    for c in tree.body:
        if not (isinstance(c, ast.ClassDef) and c.name == name):
            continue
        for m in c.body:
            if not isinstance(m, ast.FunctionDef) or m.name == '__init__':
                continue
            for n in ast.walk(m):
                ts = []
                if isinstance(n, ast.Assign):
                    ts = list(n.targets)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    ts = [n.target]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    ts = [n.func.value]
                while ts:
                    t = ts.pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        ts.extend(t.elts)
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        out.add(t.attr)
    MUTATED[cls, id(tree)] = out
    return out


def list_type(h, kind=None):
    """Element of the nesting of lists: [kind, marks of its items]."""
    I = h.I
    items = Stack(h, 'items', lambda j: h.fresh('bool', 'is_task')).obj()
    return VList(h.ctx, [kind if kind is not None else h.fresh('str', 'list_kind'), items])


def ol_mark(h):
    n = h.fresh('int', 'ol_number')
    h.assume(n.e >= 0)
    return VList(h.ctx, [n, h.fresh('str', 'ol_delimiter')])


def stack(h, name, kind):
    return Stack(h, name, {'str': lambda j: h.fresh('str', name), 'ol': lambda j: ol_mark(h),
                           'list': lambda j: list_type(h, ('ul', 'ol')[j])}[kind], kinds=2 if kind == 'list' else 1)


def image(h, inside):
    I = h.I
    if not I.truth(inside):
        return VDict(I.ctx, {})
    deep = h.fresh('int', 'image_deep')
    h.assume(deep.e >= 0)
    return VDict(I.ctx, {'src': h.fresh('str', 'image_src'), 'title': h.fresh('str', 'image_title'),
                         'text': h.fresh('str', 'image_text'), 'deep': deep})


def unknown(h, name, v, cls=None):
    """Unknown value for an attribute that has the value v after the construction."""
    I = h.I
    first = h.__dict__.setdefault('first', {}).setdefault(cls, {})
    v = first.setdefault(name, v)
    if isinstance(v, Choice):
        v = I.force(v)
    if name in LISTS:
        T = LISTS[name]
        return stack(h, name, T[1]).obj() if T[0] == 'stack' else h.fresh(T, name)
    if name in NONES:
        return h.fresh(NONES[name], name)
    if name == '_current_imgspan':
        return image(h, h.fresh('bool', 'inside_image'))
    if name == '_inside_htmlblock' and isinstance(v, VList):
        return VList(h.ctx, [h.fresh('bool', 'inside_html'), h.fresh('bool', 'html_command')])
    if isinstance(v, bool) or isinstance(v, SV) and v.t == 'bool':
        return h.fresh('bool', name)
    if isinstance(v, int) or isinstance(v, SV) and v.t == 'int':
        n = h.fresh('int', name)
        h.assume(n.e >= 0)
        return n
    if isinstance(v, str) or isinstance(v, SV) and v.t == 'str':
        return h.fresh('str', name)
    if v is None:
        return h.fresh(('opt', 'str'), name)
    return v


KEEP = {'events', 'extensions', 'command_aliases', 'metadata', '_enterspan_replacer', '_leavespan_replacer'}


def havoc(h, tool, cls, keep=(), only=None):
    """Gives unknown values to every attribute that the methods change."""
    names = mutated(h, cls) & set(tool.fields) - KEEP - set(keep)
    for n in sorted(names):
        if only is None or n in only:
            tool.fields[n] = unknown(h, n, tool.fields[n], cls)
    if 'content' not in tool.fields or cls == MD2PO:
        tool.fields['content'] = h.fresh('str', 'content')
    if cls == MD2PO:
        tool.fields['pofile'] = h.fresh(('ref', 'POFile'), 'pofile')
    return tool


def frozen(v):
    """Value that later changes do not affect."""
    if isinstance(v, VList):
        c = v.get()
        return ('list', [frozen(x) for x in c] if isinstance(c, list) else c)
    if isinstance(v, VDict):
        return ('dict', {k: frozen(x) for k, x in v.get().items()} if v.concrete else v.get(), v)
    if isinstance(v, VObj) and v.cls is STACK:
        s = v.fields['stack']
        return ('stack', tuple(s.counts), [frozen(x) for x in s.tail], s.make)
    return v


def snapshot(tool):
    return {k: frozen(v) for k, v in tool.fields.items()}


def same_value(h, a, b):
    I = h.I
    if isinstance(a, tuple) and a and a[0] in ('list', 'dict', 'stack') and isinstance(b, tuple) and b and b[0] == a[0]:
        if a[0] == 'stack':
            x, y = a[2], b[2]
            if len(x) != len(y) or len(a[1]) != len(b[1]):
                return z3.BoolVal(False)
            return z3.And([p == q for p, q in zip(a[1], b[1])] + [same_value(h, p, q) for p, q in zip(x, y)])
        x, y = a[1], b[1]
        if isinstance(x, list) and isinstance(y, list):
            return z3.And([same_value(h, p, q) for p, q in zip(x, y)]) if len(x) == len(y) else z3.BoolVal(False)
        if isinstance(x, dict) and isinstance(y, dict):
            return z3.And([same_value(h, x[k], y[k]) for k in x]) if set(x) == set(y) else z3.BoolVal(False)
        if isinstance(x, core.SymSeq) and isinstance(y, core.SymSeq):
            return x.e == y.e
        if z3.is_expr(x) and z3.is_expr(y):
            return x == y
        if a[0] == 'list':
            def seq(z):
                return z.e if isinstance(z, core.SymSeq) else None
            T = (x if isinstance(x, core.SymSeq) else y).T
            ex = seq(x) if seq(x) is not None else core.enc(h.ctx, VList(h.ctx, [u for u in x]), ('list', T))
            ey = seq(y) if seq(y) is not None else core.enc(h.ctx, VList(h.ctx, [u for u in y]), ('list', T))
            return ex == ey
        return z3.BoolVal(False)
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (VObj, core.Native)) or isinstance(b, (VObj, core.Native)) or callable(a) or callable(b):
        return z3.BoolVal(a is b)
    return h.eq(a, b)


def check_same(h, name, tool, snap, other=None, skip=()):
    """The state of the tool is the one of the snapshot."""
    now = snapshot(tool)
    for k in sorted(set(now) | set(snap)):
        if k in skip:
            continue
        if k not in now or k not in snap:
            h.check(f'{name} ({k})', False)
            continue
        if now[k] is snap[k]:
            continue
        h.check(f'{name} ({k})', same_value(h, now[k], snap[k]))


# ---------------------------------------------------------------------------- events

def block_details(h, block):
    md, I = md4c(h), h.I
    b = md.BlockType
    d = {}
    if block is b.CODE:
        fenced = h.fresh('bool', 'fenced')
        if I.truth(fenced):
            char = h.fresh('char', 'fence_char')
            h.assume(z3.Or(enc(h.ctx, char, 'char') == S('`'), enc(h.ctx, char, 'char') == S('~')))
            d = {'info': attr(h, 'info'), 'lang': attr(h, 'lang'), 'fence_char': SV('str', enc(h.ctx, char, 'char'))}
        else:
            d = {'fence_char': None}
    elif block is b.H:
        n = h.fresh('int', 'level')
        h.assume(z3.And(n.e >= 1, n.e <= 6))
        d = {'level': n}
    elif block is b.LI:
        if I.truth(h.fresh('bool', 'is_task')):
            d = {'is_task': True, 'task_mark': h.fresh('str', 'task_mark'), 'task_mark_offset': h.fresh('int', 'offset')}
        else:
            d = {'is_task': False}
    elif block is b.UL:
        d = {'is_tight': h.fresh('bool', 'is_tight'), 'mark': h.fresh('str', 'mark')}
    elif block is b.OL:
        d = {'start': h.fresh('int', 'start'), 'is_tight': h.fresh('bool', 'is_tight'),
             'mark_delimiter': h.fresh('str', 'mark_delimiter')}
    elif block is b.TABLE:
        d = {x: h.fresh('int', x) for x in ('col_count', 'head_row_count', 'body_row_count')}
    elif block in (b.TH, b.TD):
        v = h.fresh('int', 'align')
        for a in md.Align:
            if a is list(md.Align)[-1] or I.truth(v.e == a.value):
                d = {'align': a}
                break
    return VDict(h.ctx, d)


def span_details(h, span):
    s = md4c(h).SpanType
    d = {}
    if span is s.A:
        d = {'href': attr(h, 'href'), 'title': attr(h, 'title')}
    elif span is s.IMG:
        d = {'src': attr(h, 'src'), 'title': attr(h, 'title')}
    elif span is s.WIKILINK:
        d = {'target': attr(h, 'target')}
    return VDict(h.ctx, d)


def blocks():
    from pyvc import models
    b = models.host_enums().BlockType
    return list(b)


def spans():
    from pyvc import models
    return [s for s in models.host_enums().SpanType if s.name != 'U']


def thaw(h, f):
    """New value equal to a frozen one."""
    if isinstance(f, tuple) and f and f[0] == 'list':
        c = f[1]
        if isinstance(c, list):
            return VList(h.ctx, [thaw(h, x) for x in c])
        v = VList(h.ctx, [], T=c.T)
        v.set(c)
        return v
    if isinstance(f, tuple) and f and f[0] == 'dict':
        if isinstance(f[1], dict):
            return VDict(h.ctx, {k: thaw(h, x) for k, x in f[1].items()})
        return f[2]
    if isinstance(f, tuple) and f and f[0] == 'stack':
        s = Stack(h, 'copy', f[3], counts=list(f[1]))
        s.tail = [thaw(h, x) for x in f[2]]
        return s.obj()
    return f


def choose(h, name, options):
    """Any of the options (one path for each)."""
    v = h.fresh('int', name)
    for j, o in enumerate(options[:-1]):
        if h.truth(v.e == j):
            return o
    return options[-1]


def only_passed(h, cls, attribute, function, key):
    """The attribute is only read as an argument of that function or for other keys (frame condition)."""
    mod, name = cls.rsplit('.', 1)
    tree = h.I.source.tree(mod)[0]
    memo = 'passed', cls, attribute, function, key, id(tree)
    if memo in MUTATED:
        return MUTATED[memo]
    skip, ok = set(), True
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == '__init__':
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id == function:
                skip.update(id(x) for x in n.args)
            elif n.func.id in ('getattr', 'vars', 'setattr', 'hasattr', 'eval', 'exec'):
                ok = ok and (id(n) in skip or len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and
                             n.args[1].value != attribute)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and n.args and \
                isinstance(n.args[0], ast.Constant) and n.args[0].value != key:
            skip.add(id(n.func.value))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value != key:
            skip.add(id(n.value))
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and n.left.value != key:
            skip.update(id(x) for x in n.comparators)
        if isinstance(n, ast.Attribute) and (n.attr == '__dict__' or n.attr == attribute) and id(n) not in skip:
            ok = False
        if isinstance(n, ast.ClassDef) and n.name == name and n.bases:
            ok = False
    MUTATED[memo] = ok
    return ok
