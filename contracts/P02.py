"""P02: reconciliation marks or removes exactly the messages no longer extracted.

The file P is a list of different entries, F the recorded messages (active and plain, by P01).  Invariants over all
entries are proved for an arbitrary one (index j of P, index k of F) and used for any other.
"""
from contracts.entries import *
from contracts.messages import MD2PO, leaves

MARK = 'mdpo.po.mark_not_found_entries_as_obsoletes'
REMOVE = 'mdpo.po.remove_not_found_entries'
S = z3.StringVal


def some(h, f):
    return core.opt_dt(ENTRY)[5](f.term('found', f.n))


class World:
    """P, F and the fields of the entries when the reconciliation starts."""

    def __init__(self, h, marking):
        I = h.I
        self.h, self.marking = h, marking
        self.P, self.F = h.fresh(('list', ENTRY), 'entries'), h.fresh(('list', ENTRY), 'found')
        self.p, self.f = core.enc(h.ctx, self.P, ('list', ENTRY)), core.enc(h.ctx, self.F, ('list', ENTRY))
        self.h0 = Heap(h)
        self.j, self.k = z3.Int('j'), z3.Int('k')
        self.ej, self.fk = lib.seq_nth(I, self.p, self.j), lib.seq_nth(I, self.f, self.k)
        h.assume(z3.And(self.j >= 0, self.j < z3.Length(self.p)))
        h.assume(z3.Implies(z3.And(self.k >= 0, self.k < z3.Length(self.f)), z3.Not(self.h0.term(self.fk, 'obsolete'))))
        self.i = None
        self.x = None
        self.tails = z3.Function('tail', self.p.sort(), z3.IntSort(), self.p.sort())
        h.ctx.define(self.tail(z3.IntVal(0)), self.p)
        h.ctx.define(self.tail(z3.Length(self.p)), z3.Empty(self.p.sort()))
        I.contracts[FIND] = self.find
        self.file = File(h, lib.list_copy(I, self.P))
        self.file.obj.cls.methods['remove'] = self.remove
        self.kept = h.fold('kept', self.P, [('entries', ('list', ENTRY))], (VList(h.ctx, [], T=ENTRY),), self.keep)
        if not marking:
            gone = h.fold('gone', self.P, [('entries', ('list', ENTRY))], (VList(h.ctx, [], T=ENTRY),), self.collect)
            I.filters.append((gone.term('entries', gone.n), self.p, lambda I, x: self.dropped(x)))
            self.gone = gone
        I.templates.append(self.template)
        I.instances.append(self.instance)
        if marking:
            I.ghosts.append(self.ghost)

    # the statement
    def extracted(self, x, msgstr=False):
        """An extracted message has the text, context, plural form (and translation) of the entry."""
        h = self.h
        f = first_fold(h, self.h0, needle(h, self.h0, x), self.F, False, msgstr)
        self.lemma(x, f, msgstr)
        if msgstr:
            # an extracted message with the same translation is an extracted message (lemma 'translation')
            h.ctx.assume(z3.Implies(some(h, f), self.extracted(x)))
        return some(h, f)

    def lemma(self, x, f, msgstr):
        """Whatever matches is found (lemma 'search')."""
        h = self.h
        here = z3.And(self.k >= 0, self.k < z3.Length(self.f),
                      matches(h, self.h0, needle(h, self.h0, x), self.fk, False, msgstr))
        h.ctx.assume(z3.Implies(here, some(h, f)))

    def dropped(self, x):
        ob = self.h0.term(x, 'obsolete')
        if self.marking:
            return z3.And(ob, self.extracted(x, True))
        return z3.If(ob, z3.Not(self.extracted(x, True)), z3.Not(self.extracted(x)))

    def obsolete(self, x):
        return z3.Or(self.h0.term(x, 'obsolete'), z3.Not(self.extracted(x)))

    # specification folds
    def keep(self, I, st, x, i):
        out = lib.list_copy(I, st[0])
        if not I.truth(self.dropped(x)):
            lib.list_append(I, out, x)
        return (out,)

    def collect(self, I, st, x, i):
        out = lib.list_copy(I, st[0])
        if I.truth(self.dropped(x)):
            lib.list_append(I, out, x)
        return (out,)

    # invariants
    def tail(self, i):
        """The entries from the i-th on (by definition, given where it is used: its first one and the next tail)."""
        return self.tails(self.p, z3.simplify(i))

    def rest(self, i):
        """Entries of the file when the first i were examined."""
        from pyvc.loops import seqcat
        return seqcat(self.kept.term('entries', i), self.tail(i))

    def template(self, I, loc, T, val, i, entry):
        from pyvc.loops import Expr
        if T == ('list', ENTRY) and entry is not None and entry.eq(self.p):
            i = z3.simplify(i)
            if i.eq(z3.Length(self.p)):
                return {'kept': Expr(self.kept.term('entries', i))}
            return {'kept': Expr(self.rest(i))}
        return {}

    def ghost(self, I, i, n):
        if n is None or not n.eq(z3.Length(self.p)):
            return {}
        now = Heap(self.h)
        c = now.term(self.ej, 'obsolete') == z3.If(z3.Or(i <= self.j, self.dropped(self.ej)), self.h0.term(self.ej, 'obsolete'),
                                                   self.obsolete(self.ej))
        d = z3.Implies(z3.And(self.k >= 0, self.k < z3.Length(self.f)), z3.Not(now.term(self.fk, 'obsolete')))
        return {'mark of an entry': c, 'recorded messages are active': d}

    def instance(self, I, i, n):
        """Facts when the iteration over the i-th entry starts."""
        if n is None or not n.eq(z3.Length(self.p)):
            return
        x = lib.seq_nth(I, self.p, i)
        self.i, self.x = i, x
        inside = z3.And(i >= 0, i < n)
        now = Heap(self.h)
        I.ctx.assume(z3.Implies(inside, self.tail(i) == z3.Concat(z3.Unit(x), self.tail(i + 1))))
        I.ctx.assume(z3.Implies(z3.And(inside, i != self.j), x != self.ej))      # the entries are different
        if self.marking:
            # 'mark of an entry' for that entry
            I.ctx.assume(z3.Implies(inside, now.term(x, 'obsolete') == self.h0.term(x, 'obsolete')))

    # contracts of what is called
    def others_unchanged(self):
        now = Heap(self.h)
        self.h.check('only obsolete marks change', z3.And([now.arrays[f] == self.h0.arrays[f] for f in now.arrays if f != 'obsolete']))
        return now

    def find(self, I, v):
        h = self.h
        e, kw = I.force(v['entry']), v.get('kwargs')
        flags = {k: True for k in FLAGS}
        for k, x in list(kw.get().items()) if kw is not None else []:
            flags[k] = x
        flags = {k: I.force(x) for k, x in flags.items()}
        if not all(isinstance(x, bool) for x in flags.values()):
            raise Unsupported('comparison with computed flags')
        h.check('occurrences are not compared', not flags['compare_occurrences'])
        h.check('the recorded messages are searched', v['entries'] is self.F or h.eq(v['entries'], self.F))
        now = self.others_unchanged()
        h.check('the recorded messages are active', z3.Implies(
            z3.And(self.k >= 0, self.k < z3.Length(self.f)), z3.Not(now.term(self.fk, 'obsolete'))))
        if flags['compare_obsolete'] and h.truth(now.term(e, 'obsolete')):
            return None
        f = first_fold(h, self.h0, needle(h, self.h0, e), self.F, False, flags['compare_msgstr'])
        self.extracted(e.e, flags['compare_msgstr'])
        return I.force(f.total()[0])

    def remove(self, I, o, x):
        """list.remove: the first element equal to the entry (by polib: obsolete, references, text, context, ...)."""
        h = self.h
        x = I.force(x)
        now = self.others_unchanged()
        if self.i is None:
            raise Unsupported('POFile.remove outside of the loop')
        i = self.i
        h.check('the examined entry is removed', x.e == self.x)
        lst = core.enc(h.ctx, o.fields['entries'], ('list', ENTRY))
        h.check('the examined entry was not removed', lst == self.rest(i))
        h.check('no kept entry is equal', z3.Implies(z3.And(self.j < i, z3.Not(self.dropped(self.ej))), z3.Not(
            same(h, now, self.ej, x.e, True, True))))
        o.fields['entries'].set(core.SymSeq(z3.Concat(self.kept.term('entries', i), self.tail(i + 1)), ENTRY))
        return None


def marked(h):
    """mark_not_found_entries_as_obsoletes over any PO file and any recorded messages."""
    w = World(h, True)
    h.call(MARK, w.file.obj, w.F)
    now = w.others_unchanged()
    h.check('the entries that survive, in their order', h.eq(w.file.obj.fields['entries'], w.kept.total()[0]))
    keep = z3.Not(w.dropped(w.ej))
    h.check('a surviving entry is obsolete if and only if it was or is not extracted',
            z3.Implies(keep, now.term(w.ej, 'obsolete') == w.obsolete(w.ej)))
    h.check('an active entry that was extracted survives and stays active', z3.Implies(
        z3.And(z3.Not(w.h0.term(w.ej, 'obsolete')), w.extracted(w.ej)), z3.And(keep, z3.Not(now.term(w.ej, 'obsolete')))))


def removed(h):
    """remove_not_found_entries over any PO file and any recorded messages."""
    w = World(h, False)
    h.call(REMOVE, w.file.obj, w.F)
    now = Heap(h)
    h.check('no entry is changed', z3.And([now.arrays[f] == w.h0.arrays[f] for f in now.arrays]))
    h.check('the entries that survive, in their order', h.eq(w.file.obj.fields['entries'], w.kept.total()[0]))


def search_lemma(h):
    """Whatever matches is found: by induction over the list."""
    for msgstr in False, True:
        lst = h.fresh(('list', ENTRY), 'list')
        hp = Heap(h)
        nd = needle(h, hp, h.fresh(ENTRY, 'entry'))
        f = first_fold(h, hp, nd, lst, False, msgstr)
        i, k = h.fresh('int', 'i').e, h.fresh('int', 'k').e
        t = core.enc(h.ctx, lst, ('list', ENTRY))
        h.assume(z3.And(k >= 0, i >= k, i < z3.Length(t), matches(h, hp, nd, lib.seq_nth(h.I, t, k), False, msgstr)))
        is_some = core.opt_dt(ENTRY)[5]
        if h.truth(i == k):
            f.unfold(k)
            h.check('found when it comes', is_some(f.term('found', k + 1)))
            continue
        h.assume(is_some(f.term('found', i)))
        f.unfold(i)
        h.check('stays found', is_some(f.term('found', i + 1)))


def translation_lemma(h):
    """What is found with the same translation is found: by induction over the list."""
    lst = h.fresh(('list', ENTRY), 'list')
    hp = Heap(h)
    nd = needle(h, hp, h.fresh(ENTRY, 'entry'))
    f, g = first_fold(h, hp, nd, lst, False, True), first_fold(h, hp, nd, lst, False, False)
    is_some = core.opt_dt(ENTRY)[5]
    i = h.fresh('int', 'i').e
    h.check('at the start', z3.Implies(is_some(f.term('found', z3.IntVal(0))), is_some(g.term('found', z3.IntVal(0)))))
    h.assume(z3.And(i >= 0, i < f.n, z3.Implies(is_some(f.term('found', i)), is_some(g.term('found', i)))))
    f.unfold(i)
    g.unfold(i)
    h.check('at each entry', z3.Implies(is_some(f.term('found', i + 1)), is_some(g.term('found', i + 1))))


def extraction(h):
    """extract reconciles the PO file, once, after all messages, as the options say."""
    I = h.I
    leaves(h)
    preserve, mark = h.fresh('bool', 'preserve_not_found'), h.fresh('bool', 'mark_not_found_as_obsolete')
    tool = new_tool(h, MD2PO, glob=choose_(h, 'files'), preserve_not_found=preserve, mark_not_found_as_obsolete=mark)
    log = []
    I.contracts[MD2PO + '._dump_link_references'] = lambda I, v: log.append('references')
    before = h.fresh(('list', ENTRY), 'entries')
    file = File(h, lib.list_copy(I, before))
    I.env['polib.pofile'] = lambda I, a, k: file.obj

    def call(what):
        def c(I, v):
            log.append(what)
            h.check('the PO file is reconciled', z3.BoolVal(I.force(v['pofile']) is file.obj))
            h.check('with the recorded messages', z3.BoolVal(I.force(v['entries']) is tool.fields['found_entries']) if isinstance(
                tool.fields['found_entries'], VList) else h.eq(v['entries'], tool.fields['found_entries']))
        return c
    I.contracts[MARK], I.contracts[REMOVE] = call('mark'), call('remove')
    hp = Heap(h)
    texts = []

    def script(ev):
        h.check('nothing is reconciled before the messages are extracted', not [x for x in log if x != 'references'])
    try:
        drive(h, tool, script, finish=True, po_filepath=h.fresh('str', 'po_filepath'))
    except core.PyRaise:
        raise core.Infeasible() from None      # files that cannot be read
    done = [x for x in log if x != 'references']
    h.check('after the last link references', log == [x for x in log if x == 'references'] + done)
    if not h.truth(preserve):
        want = ['remove']
    elif h.truth(mark):
        want = ['mark']
    else:
        want = []
    h.check('the reconciliation that the options ask for', done == want)
    h.check('the entries are kept otherwise', h.eq(file.obj.fields['entries'], before))
    now = Heap(h)
    h.check('no entry is changed otherwise', z3.And([now.arrays[f] == hp.arrays[f] for f in hp.arrays]))


TASKS = search_tasks() + [
    Task('lemma: search', search_lemma), Task('lemma: translation', translation_lemma),
    Task('marking', marked, functions=(MARK,)), Task('removal', removed, functions=(REMOVE,)),
    Task('extraction', extraction, functions=(MD2PO + '.extract',))]
TRUSTED = ['the entries of a PO file are different objects', 'list.remove removes the first equal entry (POEntry.__eq__)',
           'recorded messages are active and have no plural forms (proved by P01)']
