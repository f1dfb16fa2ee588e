"""Entries of PO files as objects of a heap of unknown contents: comparison, search, files of entries.

Contracts of poentry__cmp__ and find_entry_in_entries (proved by ``compare_tasks`` and ``find_tasks``) and of polib:
a PO file is the list of its entries, ``entry in pofile`` looks for an active entry with exactly that text and context.
"""
from contracts.common import *

CMP = 'mdpo.polib.poentry__cmp__'
CMP_USED = 'mdpo.po.poentry__cmp__'
FIND = 'mdpo.po.find_entry_in_entries'
ENTRY = ('ref', 'POEntry')
FLAGS = ('compare_obsolete', 'compare_msgstr', 'compare_occurrences')
OLD = 1000000


class Heap:
    """The fields of the entries at some moment."""

    def __init__(self, h):
        self.h = h
        self.arrays = {f: h.ctx.heap_array('POEntry', f) for f in models().POENTRY_SCHEMA}

    def term(self, r, f):
        return z3.Select(self.arrays[f], r if z3.is_expr(r) else r.e)

    def get(self, r, f):
        return core.dec(self.h.ctx, self.term(r, f), models().POENTRY_SCHEMA[f])


def models():
    from pyvc import models
    return models


def no_plural():
    return z3.Const('no_plural', sort_of(models().POENTRY_SCHEMA['msgstr_plural']))


def text_of(h, v, none=''):
    """Term of an optional text, a default one for None."""
    is_none, val = opt_parts(h, v)
    return z3.If(is_none, z3.StringVal(none), val)


def opt_parts(h, v):
    S, none, some, val, is_none, is_some = core.opt_dt('str')
    e = core.enc(h.ctx, v, ('opt', 'str'))
    return is_none(e), val(e)


def plain(h, hp, r):
    """The entry has no plural forms."""
    return z3.And(text_of(h, hp.get(r, 'msgid_plural')) == z3.StringVal(''), hp.term(r, 'msgstr_plural') == no_plural())


def well_formed(h, hp, r):
    """Entries without plural text have no plural translations (as polib reads them)."""
    return z3.Implies(text_of(h, hp.get(r, 'msgid_plural')) == z3.StringVal(''), hp.term(r, 'msgstr_plural') == no_plural())


def same(h, hp, a, b, obsolete=False, msgstr=False):
    """Same text, context and plural form (and obsolete mark, and translation)."""
    t = [text_of(h, hp.get(a, 'msgctxt')) == text_of(h, hp.get(b, 'msgctxt')),
         text_of(h, hp.get(a, 'msgid_plural')) == text_of(h, hp.get(b, 'msgid_plural')),
         hp.term(a, 'msgid') == hp.term(b, 'msgid')]
    ob = hp.term(a, 'obsolete') == hp.term(b, 'obsolete')
    ms = hp.term(a, 'msgstr') == hp.term(b, 'msgstr')
    for flag, c in ((obsolete, ob), (msgstr, ms)):
        if flag is True:
            t.append(c)
        elif flag is not False:
            t.append(z3.Implies(h.term(flag), c))
    return z3.And(t)


def compared(h):
    """poentry__cmp__ of two entries, one of them without plural forms."""
    a, b = h.fresh(ENTRY, 'a'), h.fresh(ENTRY, 'b')
    hp = Heap(h)
    h.assume(plain(h, hp, a) if choose_(h, 'first plain') else plain(h, hp, b))
    h.assume(z3.And(well_formed(h, hp, a), well_formed(h, hp, b)))
    ob, ms = h.fresh('bool', 'compare_obsolete'), h.fresh('bool', 'compare_msgstr')
    r = h.call(CMP, a, b, compare_obsolete=ob, compare_msgstr=ms, compare_occurrences=False)
    eq = h.eq(r, 0)
    want = same(h, hp, a, b, ob, ms)
    h.check('equal if and only if text, context, plural form and the compared fields are', eq == want)
    after = Heap(h)
    h.check('no entry is changed', z3.And([after.arrays[f] == hp.arrays[f] for f in hp.arrays]))


def choose_(h, name):
    return h.truth(h.fresh('bool', name))


def comparing(h):
    """Contract of poentry__cmp__ for its callers."""
    I = h.I

    def c(I, v):
        h.check('occurrences are not compared', z3.Not(h.term(v['compare_occurrences'])))
        hp = Heap(h)
        a, b = I.force(v['self']), I.force(v['other'])
        t = same(h, hp, a, b, v['compare_obsolete'], v['compare_msgstr'])
        r = I.ctx.fresh('int', 'order')
        I.ctx.assume((r.e == 0) == t)
        return r
    I.contracts[CMP] = I.contracts[CMP_USED] = c


def needle(h, hp, r):
    """What is compared of an entry that is searched."""
    return dict(msgctxt=text_of(h, hp.get(r, 'msgctxt')), msgid_plural=text_of(h, hp.get(r, 'msgid_plural')),
                msgid=hp.term(r, 'msgid'), obsolete=hp.term(r, 'obsolete'), msgstr=hp.term(r, 'msgstr'))


def matches(h, hp, nd, b, obsolete, msgstr):
    t = [nd[f] == text_of(h, hp.get(b, f)) for f in ('msgctxt', 'msgid_plural')] + [nd['msgid'] == hp.term(b, 'msgid')]
    for flag, f in ((obsolete, 'obsolete'), (msgstr, 'msgstr')):
        if flag is not False:
            c = nd[f] == hp.term(b, f)
            t.append(c if flag is True else z3.Implies(h.term(flag), c))
    return z3.And(t)


def first_fold(h, hp, nd, lst, obsolete, msgstr):
    """First entry of a list that is the same as the searched one."""
    I = h.I
    obsolete, msgstr = I.force(obsolete), I.force(msgstr)
    sv = lambda f: SV('bool' if f == 'obsolete' else 'str', z3.simplify(nd[f]))
    caps = [sv(f) for f in ('msgid', 'msgctxt', 'msgid_plural')]
    for flag, f in ((obsolete, 'obsolete'), (msgstr, 'msgstr')):
        if flag is not False:
            caps.append(sv(f))
            if flag is not True:
                caps.append(SV('bool', h.term(flag)))

    def step(I, st, x, i):
        if I.force(st[0]) is not None:
            return st
        return (x if I.truth(matches(h, hp, nd, x, obsolete, msgstr)) else None,)
    name = 'first' + ('+obsolete' if obsolete is not False else '') + ('+msgstr' if msgstr is not False else '')
    return h.fold(name, lst, [('found', ('opt', ENTRY))], (None,), step,
                  absorb=lambda I, st: I.force(st[0]) is not None, caps=caps)


def found(h):
    """find_entry_in_entries in any list of entries."""
    comparing(h)
    entry, lst = h.fresh(ENTRY, 'entry'), h.fresh(('list', ENTRY), 'entries')
    ob, ms = h.fresh('bool', 'compare_obsolete'), h.fresh('bool', 'compare_msgstr')
    hp = Heap(h)
    f = first_fold(h, hp, needle(h, hp, entry), lst, ob, ms)
    r = h.call(FIND, entry, lst, compare_obsolete=ob, compare_msgstr=ms, compare_occurrences=False)
    h.check('the first entry that is the same, if any', h.eq(r, f.total()[0]))
    after = Heap(h)
    h.check('no entry is changed', z3.And([after.arrays[f] == hp.arrays[f] for f in hp.arrays]))


def search_tasks():
    return [Task('comparison of entries', compared, functions=(CMP,)), Task('search of an entry', found, functions=(FIND,))]


class File:
    """A PO file: the list of its entries."""

    def __init__(self, h, entries):
        I = h.I
        self.h = h
        self.lst = entries

        def get(o):
            return o.fields['entries']

        def contains(I, o, e):
            e = I.force(e)
            n = self.count(get(o), e)
            return lib.wrapb(z3.Or(n == 1, z3.And(n > 1, text_of(h, Heap(h).get(e, 'msgctxt')) == z3.StringVal(''))))

        def remove(I, o, e):
            raise Unsupported('POFile.remove')
        self.obj = VObj(I.ctx, NativeClass('POFile', {
            '__iter__': lambda I, o: get(o), '__len__': lambda I, o: lib.b_len(I, [get(o)], {}), 'remove': remove,
            '__bool__': lambda I, o: I.truth_term(get(o)), '__contains__': contains,
            'append': lambda I, o, e: lib.list_append(I, get(o), e)}), {'entries': entries})
        I.run.trusted.add('polib.POFile: list of its entries; "in" finds an active entry with exactly the text and context, '
                            'unless there are several with the same nonempty context')

    def count(self, lst, e, hp=None):
        """How many active entries have exactly that text and context."""
        h = self.h
        hp = hp or Heap(h)
        mi, ctx = hp.term(e, 'msgid'), hp.get(e, 'msgctxt')

        def step(I, st, x, i):
            here = z3.And(z3.Not(hp.term(x, 'obsolete')), hp.term(x, 'msgid') == mi, h.eq(hp.get(x, 'msgctxt'), ctx))
            return (SV('int', core.enc(I.ctx, st[0], 'int') + z3.If(here, 1, 0)),)
        f = h.fold('count', lst, [('n', 'int')], (0,), step, caps=[SV('str', mi), ctx])
        return core.enc(h.ctx, f.total()[0], 'int')
