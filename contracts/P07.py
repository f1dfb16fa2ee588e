"""P07: the translator rebuilds the same messages that the extractor stored.

Product verification: both tools receive the same event in states related by R (same text pending, same markup open,
same links known...); afterwards the states are related again and both have saved the same messages in that step.
R holds at the start of a document (task ``start``), so by induction over the events of any document both tools save
the same sequence of messages.
"""
from contracts.P08 import Place, block_of, details_at, kinds, translator
from contracts.messages import *

SHARED = ('current_msgid', '_inside_aspan', '_current_aspan_text', '_current_aspan_ref_target', 'link_references',
          'content', '_inside_codespan', '_codespan_start_index', '_codespan_text', '_current_imgspan',
          '_current_wikilink_target', '_inside_latexmath_display', '_inside_codeblock', '_inside_pblock', '_inside_hblock')
MATH = '_inside_latexmath_display_text'
REFS = ('list', ('tuple', 'str', 'str', ('opt', 'str')))


def saves(h, cls, log):
    """Contract of _save_current_msgid (proved by ``message``): a message that is not empty is saved and emptied."""
    I = h.I

    def flush(I, v):
        t = v['self']
        m = t.fields['current_msgid']
        if h.truth(z3.Not(h.eq(m, ''))):
            log.append(m)
            for k in MARKS[1:]:
                I.setattr(t, k, False)
            for k in NOTES[cls]:
                I.setattr(t, k, None)
            I.setattr(t, 'current_msgid', '')
            if cls == PO2MD:
                I.setattr(t, 'current_line', I.ctx.fresh('str', 'current_line'))
    I.contracts[cls + '._save_current_msgid'] = flush


class Pair:
    """Both tools in related states."""

    def __init__(self, h, pos='block', kind=None, pending=True, code=None, html=False, math=False):
        self.h, self.pos, self.code = h, pos, code
        I = h.I
        leaves(h)
        self.saved = {MD2PO: [], PO2MD: []}
        for cls in MD2PO, PO2MD:
            saves(h, cls, self.saved[cls])
            h.I.contracts[cls + '.command'] = lambda I, v: None     # executes a command (P03, P05), the message is empty
        self.place = Place(h, pos, kind, code=None)
        p, _ = translator(h, self.place)
        m = any_state(h, MD2PO)
        self.m, self.p = m, p
        ul, ol = self.place.lists(self.place.ul, self.place.ol)
        if pos == 'new':
            ul, ol = self.place.ul, self.place.ol
        self.depth = z3.simplify(ul + ol)
        m.fields['_uls_deep'], m.fields['_ols_deep'] = lib.mk(I, z3.simplify(ul + 0), 'int'), lib.mk(I, z3.simplify(ol + 0), 'int')
        m.fields['_inside_liblock'] = lib.wrapb(self.depth > 0)
        m.fields['_inside_uspan'] = False
        h.assume(h.term(m.fields['_inside_codeblock']) == z3.BoolVal(code is not None))
        h.assume(h.term(m.fields['_inside_htmlblock']) == z3.BoolVal(html))
        p.fields['_inside_htmlblock'].get()[0] = html
        h.assume(h.term(m.fields['_inside_latexmath_display']) == z3.BoolVal(math))
        m.fields['link_references'] = h.fresh(REFS, 'references') if choose(h, 'known', [True, False]) else None
        for k in SHARED:
            if k in m.fields and k in p.fields:
                p.fields[k] = thaw(h, frozen(m.fields[k]))
        if math:
            h.assume(z3.Not(h.term(m.fields['_inside_aspan'])))
            whole = cat(I, m.fields['current_msgid'], m.fields[MATH])
            p.fields['current_msgid'] = whole
        else:
            m.fields[MATH] = ''
        if not pending:
            h.assume(h.eq(m.fields['current_msgid'], ''))
        h.assume(z3.Implies(z3.Not(h.term(m.fields['_inside_aspan'])), h.eq(p.fields['_current_aspan_href'], None)))
        if code:
            p.fields['_inside_indented_codeblock'] = code == 'indented'
            if not h.truth(self.included()):
                m.fields['current_msgid'] = ''

    def included(self):
        """The code block is extracted."""
        h, f = self.h, self.m.fields
        return z3.And(z3.Not(h.term(f['disable_next_codeblock'])), z3.Or(h.term(f['include_codeblocks']),
                                                                         h.term(f['include_next_codeblock'])))

    def references(self):
        """The definitions of the document."""
        r = self.m.fields['link_references']
        return lib.uf(self.h.I, 'link references', [self.m.fields['content']], REFS) if r is None else r

    def both(self, name, *args):
        for cls, t in (MD2PO, self.m), (PO2MD, self.p):
            try:
                callback(self.h, t, cls, name, args)
            except core.PyRaise:
                raise core.Infeasible() from None      # P08

    def same_messages(self):
        """Both saved the same messages."""
        h = self.h
        a, b = self.saved[MD2PO], self.saved[PO2MD]
        h.check('as many messages are looked up as stored', len(a) == len(b))
        for x, y in zip(a, b):
            h.check('the text looked up is the message stored', h.eq(x, y))

    def related(self, pos='block', ul=None, ol=None, pending=True, code=None, html=False, math=False, kind=None):
        """R again."""
        h, I, m, p = self.h, self.h.I, self.m.fields, self.p.fields
        for k in SHARED:
            if k in m and k in p and not (k == 'current_msgid' and (math or code)):
                h.check(f'same state ({k})', same_value(h, frozen(m[k]), frozen(p[k])))
        if math:
            h.check('same pending text with the one of the formula', h.eq(cat(I, m['current_msgid'], m[MATH]), p['current_msgid']))
            h.check('formulas are not inside links', z3.Not(h.term(m['_inside_aspan'])))
        else:
            h.check('no text of a formula remains', h.eq(m[MATH], ''))
        h.check('inside a formula', h.term(m['_inside_latexmath_display']) == z3.BoolVal(math))
        h.check('inside a code block', h.term(m['_inside_codeblock']) == z3.BoolVal(code is not None))
        h.check('inside HTML', z3.And(h.term(m['_inside_htmlblock']) == z3.BoolVal(html),
                                      h.term(lib.getitem(I, p['_inside_htmlblock'], 0)) == z3.BoolVal(html)))
        if code:
            h.check('text of the code block', z3.If(self.included(), h.eq(m['current_msgid'], p['current_msgid']),
                                                    h.eq(m['current_msgid'], '')))
        if not pending:
            h.check('no text is pending', z3.And(h.eq(m['current_msgid'], ''), h.eq(p['current_msgid'], '')))
        h.check('no target outside links', z3.Implies(z3.Not(h.term(m['_inside_aspan'])), h.eq(p['_current_aspan_href'], None)))
        h.check('underlined text', z3.Not(h.term(m['_inside_uspan'])))
        ul = self.ul() if ul is None else ul
        ol = self.ol() if ol is None else ol
        a, b, _ = kinds(h, p['_current_list_type'])
        h.check('lists open in both', z3.And(a == ul, b == ol, h.eq(m['_uls_deep'], lib.mk(I, z3.simplify(ul + 0), 'int')),
                                             h.eq(m['_ols_deep'], lib.mk(I, z3.simplify(ol + 0), 'int'))))
        h.check('line breaks in lists', h.term(m['_inside_liblock']) == (ul + ol > 0))

    def ul(self):
        return self.place.lists(self.place.ul, self.place.ol)[0]

    def ol(self):
        return self.place.lists(self.place.ul, self.place.ol)[1]


# ---------------------------------------------------------------------------- spans and texts

def reference(h, pair, details, url):
    """Target of the first definition with that destination (and title, if given)."""
    I = h.I
    d = details.get()
    href, title = attribute(h, d[url]), attribute(h, d['title'])
    titled = h.truth(z3.Not(h.eq(title, '')))
    refs = pair.references()

    def step(I, st, x, i):
        if I.force(st[0]) is not None:
            return st
        t = h.eq(lib.getitem(I, x, 1), href)
        if titled:
            t = z3.And(t, h.eq(lib.getitem(I, x, 2), title))
        return (lib.getitem(I, x, 0) if I.truth(t) else None,)
    h.fold('reference' + ('+title' if titled else ''), refs, [('target', ('opt', 'str'))], (None,), step,
           absorb=lambda I, st: I.force(st[0]) is not None, caps=[href] + ([title] if titled else []))


def attribute(h, v):
    """Text of an attribute (contract of attribute_text); only missing or empty attributes have no text."""
    I = h.I
    v = I.force(v)
    if v is None:
        return ''
    t = lib.uf(I, 'attribute_text', [v], 'str')
    h.assume(h.term(lib.truth_term(I, v)) == z3.Not(h.eq(t, '')))
    return t


def span(fn, s):
    def f(h):
        inside = s.name == 'LATEXMATH_DISPLAY' and fn == 'leave_span' and choose(h, 'entered', [True, False])
        pair = Pair(h, math=inside)
        d = span_details(h, s)
        for k, v in list(d.get().items()):
            attribute(h, v)
        if s.name in ('A', 'IMG'):
            reference(h, pair, d, {'A': 'href', 'IMG': 'src'}[s.name])
        link = h.term(pair.m.fields['_inside_aspan'])
        pair.both(fn, s, d)
        pair.same_messages()
        opened = False
        if s.name == 'LATEXMATH_DISPLAY' and fn == 'enter_span':
            opened = not h.truth(link)
        pair.related(math=opened)
    return f


def text(h):
    """A text that is not in a block of code or HTML."""
    math = choose(h, 'math', [False, True])
    pair = Pair(h, math=math)
    pair.both('text', md4c(h).TextType.NORMAL, h.fresh('str', 'text'))
    pair.same_messages()
    pair.related(math=math)


def code_text(h):
    code = choose(h, 'code', ['fenced', 'indented'])
    pair = Pair(h, code=code)
    pair.both('text', md4c(h).TextType.NORMAL, h.fresh('str', 'text'))
    pair.same_messages()
    pair.related(code=code)


def html_text(h):
    pair = Pair(h, html=True, pending=False)
    pair.both('text', md4c(h).TextType.NORMAL, h.fresh('str', 'text'))
    pair.same_messages()
    pair.related(html=True, pending=False)


# ---------------------------------------------------------------------------- blocks

INLINE = ('P', 'H', 'TH', 'TD')


def where(h):
    """A place for blocks: in the document or a quote (no pending text), or in an item of a list (maybe pending text)."""
    pending = choose(h, 'in an item', [False, True])
    pair = Pair(h, pending=pending)
    if pending:
        h.assume(pair.depth > 0)
    return pair


def enter(name):
    def f(h):
        b = block_of(name)
        d = details_at(h, b)
        if name in ('TABLE', 'THEAD', 'TBODY', 'TR', 'TH', 'TD'):
            pair = Pair(h)
        else:
            pair = where(h)
        pair.both('enter_block', b, d)
        if name == 'HR':
            pair.both('leave_block', b, d)
        ul, ol = pair.ul(), pair.ol()
        if name in ('UL', 'OL'):       # an item comes next
            item = block_of('LI')
            di = details_at(h, item)
            pair.both('enter_block', item, di)
            ul, ol = ul + (name == 'UL'), ol + (name == 'OL')
        pair.same_messages()
        code = None
        if name == 'CODE':
            code = 'indented' if h.I.force(d.get()['fence_char']) is None else 'fenced'
        pair.related(ul=ul, ol=ol, code=code, html=name == 'HTML', pending=name not in ('QUOTE', 'UL', 'OL', 'CODE', 'H', 'HR', 'HTML'))
    return f


def leave(name):
    def f(h):
        b = block_of(name)
        d = details_at(h, b)
        code = None
        if name == 'CODE':
            code = 'indented' if h.I.force(d.get()['fence_char']) is None else 'fenced'
        if name in ('UL', 'OL'):
            pair = Pair(h, 'items', name.lower(), pending=False)
        elif name == 'LI':
            pair = Pair(h)
            h.assume(pair.depth > 0)
        else:
            # quotes, rows and tables end after their blocks or cells
            pair = Pair(h, pending=name in INLINE + ('CODE',), code=code, html=name == 'HTML')
        if code:
            keep = h.truth(pair.included())
        pair.both('leave_block', b, d)
        if code and not keep:
            pair.saved[PO2MD].clear()       # code that is not extracted is not a message
        pair.same_messages()
        ul, ol = pair.ul(), pair.ol()
        if name in ('UL', 'OL'):
            ul, ol = pair.place.ul, pair.place.ol
        pair.related(ul=ul, ol=ol, pending=False)
    return f


def next_item(h):
    """Items after the first one of a list."""
    b = block_of('LI')
    d = details_at(h, b)
    pair = Pair(h, 'items', choose(h, 'kind', ['ul', 'ol']), pending=False)
    pair.both('enter_block', b, d)
    pair.same_messages()
    pair.related(pending=False)


# ---------------------------------------------------------------------------- documents and messages

def start(h):
    """Both tools give the same content to the same parser, in related states."""
    I = h.I
    content = h.fresh('str', 'content')
    seen = {}
    for cls in MD2PO, PO2MD:
        leaves(h)
        tool = new_tool(h, cls)
        I.contracts['mdpo.io.to_files_or_content'] = lambda I, v: (False, content)
        if cls == MD2PO:
            tool = h.call(cls, 'x')
        I.contracts['mdpo.io.to_file_content_if_is_file'] = lambda I, v: content

        def script(ev, tool=tool, cls=cls):
            seen[cls] = (tool, ev.content, dict(tool.fields))
            h.check('the whole content is parsed', h.eq(ev.content, content))
            h.check('link references are those of the parsed content', h.eq(tool.fields['content'], content))
        drive(h, tool, script, arguments=seen.setdefault('args', []))
    h.check('both parse', MD2PO in seen and PO2MD in seen)
    a, k = seen['args'][0]
    b, l = seen['args'][1]
    h.check('same parser', len(a) == len(b) and set(k) == set(l) and all(x == y for x, y in zip(a, b)) and
            all(I.force(k[n]) == I.force(l[n]) for n in k))
    (m, _, _), (p, _, _) = seen[MD2PO], seen[PO2MD]
    m, p = m.fields, p.fields
    for n in SHARED:
        if n in m and n in p:
            h.check(f'same state ({n})', same_value(h, frozen(m[n]), frozen(p[n])))
    for n in ('_enterspan_replacer', '_leavespan_replacer'):
        x, y = m[n].get(), p[n].get()
        h.check(f'same markup ({n})', set(x) == set(y) and all(I.force(x[c]) == I.force(y[c]) for c in x))
    h.check('nothing is pending', z3.And(h.eq(m['current_msgid'], ''), h.eq(m[MATH], ''), h.eq(p['_current_aspan_href'], None)))
    for n in ('_inside_latexmath_display', '_inside_codeblock', '_inside_htmlblock', '_inside_liblock', '_inside_uspan'):
        h.check(f'outside ({n})', z3.Not(h.term(m[n])))
    h.check('outside HTML', z3.Not(h.term(lib.getitem(I, p['_inside_htmlblock'], 0))))
    h.check('outside lists', z3.And(h.eq(m['_uls_deep'], 0), h.eq(m['_ols_deep'], 0), h.eq(lib.b_len(
        I, [p['_current_list_type']], {}), 0)))


def message(h):
    """_save_current_msgid of both tools with the same marks: the stored message is the one looked up."""
    I = h.I
    leaves(h)
    log = {}
    for cls in MD2PO, PO2MD:
        log[cls] = Log()
    m, p = any_state(h, MD2PO), any_state(h, PO2MD)
    storing(h, log[MD2PO])
    I.contracts[PO2MD + '._translate_msgid'] = lambda I, v: (
        log[PO2MD].translated.append({k: v.get(k) for k in ('msgid', 'msgctxt')}),
        lib.uf(I, 'translation', [v['msgid'], v['msgctxt']], 'str'))[1]
    for k in ('current_msgid',) + MARKS + NOTES[MD2PO]:
        p.fields[k] = m.fields[k]
    text, ctx = m.fields['current_msgid'], m.fields['current_msgctxt']
    h.method(m, '_save_current_msgid')
    try:
        h.method(p, '_save_current_msgid')
    except core.PyRaise:
        raise core.Infeasible() from None       # P08
    a, b = log[MD2PO].saved, log[PO2MD].translated
    h.check('looked up if and only if stored', len(a) == len(b))
    h.check('at most one message', len(a) <= 1)
    for x in a + b:
        h.check('with the pending text', h.eq(x['msgid'], text))
        h.check('with the pending context', h.eq(x['msgctxt'], ctx))
    h.check('nothing is pending', z3.And(h.eq(m.fields['current_msgid'], ''), h.eq(p.fields['current_msgid'], '')))


TASKS = []
for _s in spans():
    for _n in 'enter_span', 'leave_span':
        TASKS.append(Task(f'{_n} {_s.name}', span(_n, _s), functions=(PO2MD + '.' + _n, MD2PO + '.not_plaintext_' + _n)))
for _b in blocks():
    if _b.name != 'LI':
        TASKS.append(Task(f'enter {_b.name}', enter(_b.name), functions=(PO2MD + '.enter_block', MD2PO + '.enter_block')))
    if _b.name != 'HR':
        TASKS.append(Task(f'leave {_b.name}', leave(_b.name), functions=(PO2MD + '.leave_block', MD2PO + '.leave_block')))
TASKS += [Task('next item', next_item, functions=(PO2MD + '.enter_block', MD2PO + '.enter_block')),
          Task('text', text, functions=(PO2MD + '.text', MD2PO + '.text')),
          Task('text of code', code_text, functions=(PO2MD + '.text', MD2PO + '.text')),
          Task('text of HTML', html_text, functions=(PO2MD + '.text', MD2PO + '.text')),
          Task('start', start, functions=(MD2PO + '.extract', PO2MD + '.translate')),
          Task('message', message, functions=(MD2PO + '._save_current_msgid', PO2MD + '._save_current_msgid'))]
TRUSTED = ['md4c delivers well nested blocks: items directly in lists, lists with items, rows with cells; only texts'
           ' inside code spans and formulas; spans that are entered are left in the same block',
           'md4c: attributes are missing, empty or have some text']
