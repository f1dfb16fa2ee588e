"""P11: code spans are wrapped by a delimiter that their text does not contain."""
from contracts.common import *

MIN = 'mdpo.text.min_not_max_chars_in_a_row'


def runs_fold(h, char, text):
    """Lengths of the maximal runs of the character that ended, and length of the one going on."""
    I = h.I

    def step(I, st, x, i):
        runs, cur = st
        if I.truth(I.eq(x, char)):
            return runs, SV('int', core.enc(I.ctx, cur, 'int') + 1)
        c = core.enc(I.ctx, cur, 'int')
        if I.truth(c > 0):
            return VSet(I.ctx, z3.Store(core.enc(I.ctx, runs, ('set', 'int')), c, True), T='int'), 0
        return runs, 0
    return h.fold('runs', text, [('runs', ('set', 'int')), ('cur', 'int')],
                  (VSet(I.ctx, [], T='int'), 0), step, caps=(char,))


def minimum(h):
    I = h.I
    text, char, default = h.fresh('str', 'text'), h.fresh('str', 'char'), h.fresh('int', 'default')
    h.assume(z3.Length(char.e) == 1)
    f = runs_fold(h, char, text)
    m0 = z3.Int('m0')
    box = {}

    def ghost(I, i, n):
        if 'F' not in box:
            runs, cur = (core.enc(I.ctx, x, T) for x, (c, T) in zip(f.total(), f.comps))
            box['F'] = z3.If(cur > 0, z3.Store(runs, cur, True), runs)
        return {'shorter ones are runs': z3.Implies(z3.And(1 <= m0, m0 < 1 + i), z3.Select(box['F'], m0))}
    I.ghosts.append(ghost)
    j = z3.Int('j')
    I.ghosts.append(lambda I, i, n: {'runs are positive': z3.ForAll([j], z3.Implies(
        z3.Select(f.term('runs', i), j), j >= 1))})
    r = h.call(MIN, char, text, default)
    runs, cur = (h.enc(x, T) for x, (c, T) in zip(f.total(), f.comps))
    F = z3.If(cur > 0, z3.Store(runs, cur, True), runs)
    none = F == z3.K(z3.IntSort(), z3.BoolVal(False))
    r = I.force(r)
    if r is None:
        h.check('a number is returned', False)
        return
    r = h.enc(r, 'int')
    if h.truth(none):
        h.check('default without the character', r == default.e)
    else:
        h.check('at least one', r >= 1)
        h.check('not the length of a run', z3.Not(z3.Select(F, r)))
        h.check('the smallest one', z3.Implies(z3.And(1 <= m0, m0 < r), z3.Select(F, m0)))


def all_texts(h, texts):
    """Concatenation of the texts of the span."""
    I = h.I
    return h.fold('texts', texts, [('all', 'str')], ('',), lambda I, st, x, i: (cat(I, st[0], x),))


def codespan(cls, inside):
    """A code span after any text, itself made of any number of texts, inside of a link or not."""
    def f(h):
        I = h.I
        md = md4c(h)
        c = e = '`'
        tool = new_tool(h, cls)
        attribute_contract(I)

        def minimum(I, v):
            h.check('without the character the delimiter is one character', h.eq(v['default'], 1))
            r = lib.uf(I, 'shortest delimiter', [v['char'], v['text']], 'int')
            I.ctx.assume(r.e >= 1)
            return r
        I.contracts[MIN] = minimum
        I.contracts['mdpo.md.parse_link_references'] = lambda I, v: VList(I.ctx, [])
        before = h.fresh('str', 'before')
        texts = h.fresh(('list', 'str'), 'texts')
        al = all_texts(h, texts)

        def body(ev, x):
            # md4c gives the line breaks inside code spans as spaces
            h.assume(z3.Not(z3.Contains(h.enc(x, 'str'), S('\n'))))
            ev.text(md.TextType.CODE, x)

        def script(ev):
            ev.enter_block(md.BlockType.DOC, details(h))
            ev.enter_block(md.BlockType.P, details(h))
            tool.fields['current_msgid'] = before
            href = attr(h, 'href')
            if inside:
                a = details(h, href=href, title=None)
                ev.enter_span(md.SpanType.A, a)
                label = h.fresh('str', 'label')
                h.assume(label.e != S('\n'))
                ev.text(md.TextType.NORMAL, label)
            ev.enter_span(md.SpanType.CODE, details(h))
            I.for_loop(('texts',), lib.iterate(I, texts), lambda x: body(ev, x))
            ev.leave_span(md.SpanType.CODE, details(h))
            t, = al.total()
            n = lib.uf(I, 'shortest delimiter', [c, t], 'int')
            less = SV('int', n.e - 1)
            want = cat(I, lib.str_repeat(I, c, less), c, t, e, lib.str_repeat(I, e, less))
            if not inside:
                h.check('the text of the span between equal delimiters',
                        h.eq(tool.fields['current_msgid'], cat(I, before, want)))
                return
            ev.leave_span(md.SpanType.A, a)
            target = I.force(href)
            target = '' if target is None else lib.uf(I, 'attribute_text', [target], 'str')
            want = cat(I, label, want)
            if h.truth(h.eq(want, target)):
                want = cat(I, before, '<', want, '>')
            else:
                want = cat(I, before, '[', want, '](', target, ')')
            h.check('the text of the span between equal delimiters', h.eq(tool.fields['current_msgid'], want))
        drive(h, tool, script)
    return Task(f'{cls.split(".")[1]} code span {"in a link" if inside else "in a text"}', f,
                functions=(cls + '.text',))


TASKS = [Task('minimum', minimum, functions=(MIN,)),
         codespan(MD2PO, False), codespan(MD2PO, True), codespan(PO2MD, False), codespan(PO2MD, True)]
