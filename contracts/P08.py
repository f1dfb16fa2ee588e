"""P08: no Markdown construct makes the extractor or the translator crash.

One task for each callback and kind of block or span: from every state that fulfils the representation invariant at a
place where the parser can deliver the event, the callback ends without an exception and the invariant holds at the
next place.  Nothing is assumed about spans and texts: they come in any order, balanced or not.
"""
from contracts.messages import *
from contracts.entries import ENTRY, FIND, search_tasks

BULLETS = '-+*'
DELIMS = '.)'
SAVE_MSGID = MD2PO + '._save_msgid'


# ---------------------------------------------------------------------------- places of the document

def item_list(h, kind):
    """List in which some item was entered."""
    n = h.fresh('int', 'items')
    h.assume(n.e >= 1)
    items = Stack(h, 'items', lambda j: h.fresh('bool', 'is_task'), counts=[n.e]).obj()
    return VList(h.ctx, [kind, items])


class Place:
    """Where the document is: in how many lists, and what comes next.

    pos: 'new' (a list was entered: its first item comes), 'items' (an item was left: other or the end of the list),
    'block' (anything else: blocks, spans, texts or the end of an item, a quote or the document).
    """

    def __init__(self, h, pos='block', kind=None, code=None, name='in'):
        self.h, self.pos, self.kind, self.code = h, pos, kind, code
        self.ul, self.ol = h.fresh('int', name + '_uls').e, h.fresh('int', name + '_ols').e
        h.assume(z3.And(self.ul >= 0, self.ol >= 0))

    def lists(self, ul, ol):
        """Lists open at this place."""
        return ul + (self.kind == 'ul'), ol + (self.kind == 'ol')


def real(x):
    """Line with the mark of an item."""
    return z3.Or([z3.Contains(x, S(c)) for c in BULLETS + DELIMS])


class Output:
    """Once an item was entered there is its line: in the output, which never loses it, or in the current line."""

    def __init__(self, h, tool):
        self.h, self.tool = h, tool

    def lines(self, e):
        """Some of the lines is the one of an item (the predicate of a list, followed through its changes)."""
        I, h = self.h.I, self.h
        if not z3.is_app(e):
            raise Unsupported('lines of the output')
        k = e.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            return z3.Or([self.lines(c) for c in e.children()])
        if k == z3.Z3_OP_SEQ_UNIT:
            return real(e.arg(0))
        if k == z3.Z3_OP_SEQ_EMPTY:
            return z3.BoolVal(False)
        some = z3.Function('line of an item', e.sort(), z3.BoolSort())(e)
        if k == z3.Z3_OP_SEQ_EXTRACT:
            # by definition: all the lines but the last one
            x = e.arg(0)
            whole = z3.And(e.arg(1) == 0, e.arg(2) == z3.Length(x) - 1, z3.Length(x) > 0)
            h.ctx.assume(z3.Implies(whole, self.lines(x) == z3.Or(some, real(lib.seq_nth(I, x, z3.Length(x) - 1)))))
        h.ctx.assume(z3.Implies(some, z3.Length(e) > 0))
        return some

    def real(self, current):
        out = core.enc(self.h.ctx, self.tool.fields['outputlines'], ('list', 'str'))
        line = core.enc(self.h.ctx, self.tool.fields['current_line'], 'str')
        return z3.Or(self.lines(z3.simplify(out)), real(line) if current else z3.BoolVal(False))



# ---------------------------------------------------------------------------- translator

def translator(h, place):
    """The translator in any state at that place."""
    I = h.I
    I.env['strip keeps'] = BULLETS + DELIMS
    tool = any_state(h, PO2MD)
    f = tool.fields
    p = place
    lists = Stack(h, 'lists', lambda j: item_list(h, ('ul', 'ol')[j]), counts=[p.ul, p.ol])
    ul, ol = p.lists(p.ul, p.ol)
    if p.pos == 'new':
        lists.tail.append(VList(h.ctx, [p.kind, VList(h.ctx, [])]))
    elif p.kind:
        lists.tail.append(item_list(h, p.kind))
    f['_current_list_type'] = lists.obj()
    f['_ul_marks'] = Stack(h, 'marks', lambda j: h.fresh('str', 'mark'), counts=[z3.simplify(ul + 0)]).obj()
    f['_ol_marks'] = Stack(h, 'numbers', lambda j: ol_mark(h), counts=[z3.simplify(ol + 0)]).obj()
    out = Output(h, tool)
    if p.pos == 'items':
        h.assume(out.real(False))
        f['_inside_liblock'] = False
    else:
        h.assume(z3.Implies(z3.And(p.ul + p.ol == 0), z3.Not(h.term(f['_inside_liblock']))))
        h.assume(z3.Implies(p.ul + p.ol > 0, out.real(True)))
    f['_inside_indented_codeblock'] = p.code == 'indented'
    images(h, tool)
    alignments(h, tool)
    return tool, out


def alignments(h, tool):
    """The columns of a table have one of the four alignments."""
    old = core.enc(h.ctx, tool.fields['_current_thead_aligns'], ('list', 'int'))

    h.I.elem_facts.append((old, lambda I, x, i: I.ctx.assume(z3.And(x.e >= 0, x.e <= 3))))
    tool.fields['ghost alignments'] = (old,)


def alignment_state(h, tool):
    old, = tool.fields.get('ghost alignments', (z3.Empty(z3.SeqSort(z3.IntSort())),))
    new = core.enc(h.ctx, tool.fields['_current_thead_aligns'], ('list', 'int'))
    n = z3.Length(old)
    h.check('alignments of the columns', z3.Or(
        new == old, z3.Length(new) == 0,
        z3.And(z3.Length(new) == n + 1, z3.Extract(new, 0, n) == old, new[n] >= 0, new[n] <= 3)))


def images(h, tool):
    """The link references are known inside an image."""
    if h.truth(h.I.truth_term(tool.fields['_current_imgspan'])):
        h.assume(z3.Not(h.eq(tool.fields['link_references'], None)))


def kinds(h, v):
    """Number of lists of each kind open, and whether all of them have items."""
    I = h.I
    if isinstance(v, VList):
        counts, tail = [z3.IntVal(0), z3.IntVal(0)], list(v.get())
    else:
        s = v.fields['stack']
        counts, tail = list(s.counts), list(s.tail)
    full = []
    for x in tail:
        k = I.force(lib.getitem(I, x, 0))
        counts[('ul', 'ol').index(k)] += 1
        full.append(h.term(I.truth_term(lib.getitem(I, x, -1))))
    return z3.simplify(counts[0]), z3.simplify(counts[1]), full


def size(h, v):
    return z3.IntVal(len(v.get())) if isinstance(v, VList) else v.fields['stack'].size()


def image_state(h, tool):
    I = h.I
    image = tool.fields['_current_imgspan']
    if h.truth(I.truth_term(image)):
        h.check('inside an image: the link references are known', z3.Not(h.eq(tool.fields['link_references'], None)))
        c = image.get() if isinstance(image, VDict) and image.concrete else {}
        h.check('inside an image: its parts are known', {'text', 'deep'} <= set(c))
        if {'text', 'deep'} <= set(c):
            h.check('inside an image: its parts are texts and a number', lib.is_str(I.force(c['text'])) and
                    core.type_of(I.force(c['deep'])) == 'int')


def translator_at(h, tool, out, ul, ol, pos, kind=None, code=None):
    """The invariant of the translator at a place with that number of lists."""
    f = tool.fields
    a, b, full = kinds(h, f['_current_list_type'])
    h.check('lists open: unordered', a == ul)
    h.check('lists open: ordered', b == ol)
    if pos == 'new':
        full = full[:-1]
    h.check('lists open: with items', z3.And(full + [z3.BoolVal(True)]))
    h.check('marks of the unordered lists', size(h, f['_ul_marks']) == ul)
    h.check('numbers of the ordered lists', size(h, f['_ol_marks']) == ol)
    inside = h.term(f['_inside_liblock'])
    n = ul + ol - (1 if pos == 'new' else 0)
    if pos == 'items':
        h.check('between items', z3.Not(inside))
        h.check('the output has lines after an item', out.real(False))
    else:
        h.check('an item is in a list', z3.Implies(inside, n > 0))
        h.check('the output has the line of the item', z3.Implies(n > 0, out.real(True)))
    h.check('inside an indented code block', h.term(f['_inside_indented_codeblock']) == z3.BoolVal(code == 'indented'))
    image_state(h, tool)
    alignment_state(h, tool)


# ---------------------------------------------------------------------------- extractor

def names(h):
    v = h.func('mdpo.md4c.READABLE_BLOCK_NAMES')
    return sorted(v.get())


def known(h, tool):
    """The type of the top level block is one with a name."""
    t = tool.fields['_current_top_level_block_type']
    return z3.And(z3.Not(h.eq(t, None)), z3.Or([h.eq(t, n) for n in names(h)]))


def extractor(h, started):
    """The extractor in any state, before or after the first block of the document."""
    tool = any_state(h, MD2PO)
    f = tool.fields
    if started:
        h.assume(known(h, tool))
    else:
        for k in '_inside_htmlblock', '_inside_codeblock', '_inside_liblock', '_inside_hblock', '_inside_pblock':
            f[k] = False
        for k in '_quoteblocks_deep', '_uls_deep', '_ols_deep':
            f[k] = 0
        f['current_msgid'] = ''
        f['_current_imgspan'] = VDict(h.ctx, {})
        f['link_references'] = None
    images(h, tool)
    return tool


def extractor_at(h, tool, started):
    f = tool.fields
    if started:
        h.check('the block has a readable name', known(h, tool))
    else:
        for k in '_inside_htmlblock', '_inside_codeblock', '_inside_liblock', '_inside_hblock', '_inside_pblock':
            h.check(f'before the first block ({k})', z3.Not(h.term(f[k])))
        for k in '_quoteblocks_deep', '_uls_deep', '_ols_deep':
            h.check(f'before the first block ({k})', h.eq(f[k], 0))
        h.check('before the first block (current_msgid)', h.eq(f['current_msgid'], ''))
        h.check('before the first block (link_references)', h.eq(f['link_references'], None))
    image_state(h, tool)


def stored(h):
    """Contract of _save_msgid: called inside of a block with a readable name."""
    def save(I, v):
        t = v['self']
        place = z3.And(h.term(I.truth_term(t.fields['location'])),
                       h.term(I.truth_term(t.fields['_current_markdown_filepath'])))
        h.check('messages are stored inside of a block with a readable name', z3.Implies(place, known(h, t)))
    h.I.contracts[SAVE_MSGID] = save


REFUSAL = 'You need to specify'


def quiet(h, run):
    """The step ends normally, or with the documented refusal of a command without text."""
    try:
        run()
    except core.PyRaise as e:
        x = e.exc
        first = x.args[0] if x.args else None
        if x.cls is ValueError and not x.implicit and refusal(first):
            return False
        raise
    return True


def refusal(m):
    """The message of the error explains the command."""
    if isinstance(m, str):
        return m.startswith(REFUSAL)
    return isinstance(m, SV) and m.t == 'str' and z3.is_true(z3.simplify(z3.PrefixOf(S(REFUSAL), m.e)))


# ---------------------------------------------------------------------------- tasks

def step(h, cls, fn, *args):
    log = Log()
    leaves(h)
    if cls == MD2PO:
        stored(h)
    else:
        h.I.contracts[PO2MD + '._translate_msgid'] = lambda I, v: lib.uf(
            I, 'translation', [v['msgid'], v['msgctxt']], 'str')
    return lambda tool: quiet(h, lambda: callback(h, tool, cls, fn, args))


def block_of(name):
    b = next(b for b in blocks() if b.name == name)
    return b


LIST = {'UL': 'ul', 'OL': 'ol'}


def details_at(h, block, code=None):
    d = block_details(h, block)
    if block.name == 'UL':
        h.assume(z3.Or([d.get()['mark'].e == S(c) for c in BULLETS]))
    if block.name == 'OL':
        h.assume(z3.Or([d.get()['mark_delimiter'].e == S(c) for c in DELIMS]))
    return d


def po_enter(name):
    def f(h):
        b = block_of(name)
        d = details_at(h, b)
        run = step(h, PO2MD, 'enter_block', b, d)
        if name == 'LI':
            for kind in choose(h, 'kind', ['ul', 'ol']),:
                pos = choose(h, 'pos', ['new', 'items'])
                p = Place(h, pos, kind)
                tool, out = translator(h, p)
                marks(h, tool)
                run(tool)
                translator_at(h, tool, out, *p.lists(p.ul, p.ol), 'block')
            return
        p = Place(h)
        tool, out = translator(h, p)
        run(tool)
        if name in LIST:
            translator_at(h, tool, out, p.ul + (name == 'UL'), p.ol + (name == 'OL'), 'new')
        else:
            code = None
            if name == 'CODE':
                code = 'indented' if d.get()['fence_char'] is None else 'fenced'
            translator_at(h, tool, out, p.ul, p.ol, 'block', code=code)
    return f


def marks(h, tool):
    """The marks of the lists are those that the parser delivered."""
    for n, i, cs in ('_ul_marks', None, BULLETS), ('_ol_marks', 1, DELIMS):
        s = tool.fields[n].fields['stack']
        make = s.make

        def known_mark(j, make=make, i=i, cs=cs):
            x = make(j)
            e = x if i is None else x.get()[i]
            h.assume(z3.Or([e.e == S(c) for c in cs]))
            return x
        s.make = known_mark


def po_leave(name):
    def f(h):
        b = block_of(name)
        d = details_at(h, b)
        run = step(h, PO2MD, 'leave_block', b, d)
        if name in LIST:
            p = Place(h, 'items', LIST[name])
            tool, out = translator(h, p)
            run(tool)
            translator_at(h, tool, out, p.ul, p.ol, 'block')
            return
        code = None
        if name == 'CODE':
            code = 'indented' if d.get()['fence_char'] is None else 'fenced'
        p = Place(h, code=code)
        if name == 'LI':
            h.assume(p.ul + p.ol > 0)
        tool, out = translator(h, p)
        run(tool)
        translator_at(h, tool, out, p.ul, p.ol, 'items' if name == 'LI' else 'block')
    return f


def po_other(fn, span=None):
    def f(h):
        args = (span, span_details(h, span)) if span else (md4c(h).TextType.NORMAL, h.fresh('str', 'text'))
        run = step(h, PO2MD, fn, *args)
        code = choose(h, 'code', [None, 'indented', 'fenced']) if fn == 'text' else None
        p = Place(h, code=code)
        tool, out = translator(h, p)
        run(tool)
        translator_at(h, tool, out, p.ul, p.ol, 'block', code=code)
    return f


COUNTED = ('QUOTE', 'UL', 'OL', 'H', 'CODE', 'HTML', 'P', 'TABLE')


def md_enter(name):
    def f(h):
        b = block_of(name)
        run = step(h, MD2PO, 'enter_block', b, details_at(h, b))
        started = True
        if name in COUNTED + ('DOC', 'HR'):
            started = choose(h, 'started', [True, False])
        tool = extractor(h, started)
        if run(tool):
            extractor_at(h, tool, started or name in COUNTED)
    return f


def md_leave(name):
    def f(h):
        b = block_of(name)
        run = step(h, MD2PO, 'leave_block', b, details_at(h, b))
        started = choose(h, 'started', [True, False]) if name in ('DOC', 'HR') else True
        tool = extractor(h, started)
        if run(tool):
            extractor_at(h, tool, started)
    return f


def md_other(fn, span=None):
    def f(h):
        args = (span, span_details(h, span)) if span else (md4c(h).TextType.NORMAL, h.fresh('str', 'text'))
        run = step(h, MD2PO, fn, *args)
        tool = extractor(h, True)
        if run(tool):
            extractor_at(h, tool, True)
    return f


def initial(cls):
    """The invariant holds when the parser starts and what follows the parser does not fail."""
    def f(h):
        I = h.I
        leaves(h)
        tool = new_tool(h, cls, **({'glob': False}))
        ok = []

        def script(ev):
            ok.append(1)
            if cls == MD2PO:
                extractor_at(h, tool, False)
            else:
                translator_at(h, tool, Output(h, tool), z3.IntVal(0), z3.IntVal(0), 'block')
            # the document: any state
            new = extractor(h, True) if cls == MD2PO else translator(h, Place(h))[0]
            for k in mutated(h, cls) & set(new.fields) - {'content', 'pofile', 'pofiles', 'output'}:
                if k in tool.fields and k not in LISTS_OF_ENTRIES:
                    I.setattr(tool, k, new.fields[k])
        if cls == MD2PO:
            stored(h)
            for n in 'remove_not_found_entries', 'mark_not_found_entries_as_obsoletes':
                I.contracts['mdpo.po.' + n] = lambda I, v: None
        else:
            I.contracts[PO2MD + '._translate_msgid'] = lambda I, v: lib.uf(
                I, 'translation', [v['msgid'], v['msgctxt']], 'str')
        quiet(h, lambda: drive(h, tool, script, finish=True))
        h.check('the document is read once', len(ok) == 1)
    return f


def ended(h):
    h.check('ends without an exception', True)


def storing_task(h):
    """_save_msgid from any state inside of a block with a readable name."""
    I = h.I
    leaves(h)
    I.contracts[FIND] = lambda I, v: I.ctx.fresh(('opt', ENTRY), 'equal')
    tool = extractor(h, True)
    inside = h.fresh('bool', 'in the file')
    file = NativeClass('POFile', {'__contains__': lambda I, o, x: inside, 'append': lambda I, o, x: None})
    tool.fields['pofile'] = VObj(h.ctx, file, {})
    tool.fields['location'] = h.fresh('bool', 'location')
    tool.fields['_current_markdown_filepath'] = h.fresh('str', 'path')
    h.method(tool, '_save_msgid', h.fresh('str', 'msgid'), msgstr=h.fresh('str', 'msgstr'),
             tcomment=h.fresh(('opt', 'str'), 'tcomment'), msgctxt=h.fresh(('opt', 'str'), 'msgctxt'),
             fuzzy=h.fresh('bool', 'fuzzy'))
    ended(h)


def lookup_task(h):
    """_translate_msgid for any dictionaries of translations."""
    I = h.I
    tool = any_state(h, PO2MD)
    m = h.fresh(('map', 'str', 'str'), 'translations')
    c = h.fresh(('map', 'str', ('map', 'str', 'str')), 'translations_with_msgctxt')
    tool.fields['translations'], tool.fields['translations_with_msgctxt'] = m, c
    h.method(tool, '_translate_msgid', h.fresh('str', 'msgid'), h.fresh(('opt', 'str'), 'msgctxt'),
             h.fresh(('opt', 'str'), 'tcomment'))
    ended(h)


def texts(h):
    """Functions of texts: any text."""
    I = h.I
    which = choose(h, 'function', ['attribute', 'command', 'references'])
    if which == 'attribute':
        h.call('mdpo.md4c.attribute_text', attr(h, 'attribute'))
    elif which == 'command':
        I.env['re.match'] = lambda I, s: (lib.uf(I, 'command', [s], 'str'), lib.uf(I, 'comment', [s], ('opt', 'str'))) \
            if I.truth(lib.uf(I, 'is a command', [s], 'bool')) else None
        h.call('mdpo.command.parse_mdpo_html_command', h.fresh('str', 'text'))
    else:
        I.env['re.match'] = lambda I, s: tuple(lib.uf(I, f'definition {n}', [s], T) for n, T in (
            ('target', 'str'), ('href', 'str'), ('title', ('opt', 'str')))) \
            if I.truth(lib.uf(I, 'is a definition', [s], 'bool')) else None
        h.call('mdpo.md.parse_link_references', h.fresh('str', 'content'))
    ended(h)


def delimiters(h):
    """min_not_max_chars_in_a_row for any text."""
    c = h.fresh('char', 'char')
    h.call('mdpo.text.min_not_max_chars_in_a_row', SV('str', core.enc(h.ctx, c, 'char')), h.fresh('str', 'text'))
    ended(h)


TASKS = search_tasks()
for _b in blocks():
    TASKS.append(Task(f'po2md enter {_b.name}', po_enter(_b.name), functions=(PO2MD + '.enter_block',)))
    TASKS.append(Task(f'po2md leave {_b.name}', po_leave(_b.name), functions=(PO2MD + '.leave_block',)))
    TASKS.append(Task(f'md2po enter {_b.name}', md_enter(_b.name), functions=(MD2PO + '.enter_block',)))
    TASKS.append(Task(f'md2po leave {_b.name}', md_leave(_b.name), functions=(MD2PO + '.leave_block',)))
for _s in spans():
    for _n in 'enter_span', 'leave_span':
        TASKS.append(Task(f'po2md {_n} {_s.name}', po_other(_n, _s), functions=(PO2MD + '.' + _n,)))
        TASKS.append(Task(f'md2po {_n} {_s.name}', md_other(_n, _s), functions=(MD2PO + '.not_plaintext_' + _n,)))
TASKS += [Task('po2md text', po_other('text'), functions=(PO2MD + '.text', PO2MD + '.command')),
          Task('md2po text', md_other('text'), functions=(MD2PO + '.text', MD2PO + '.command')),
          Task('md2po document', initial(MD2PO), functions=(MD2PO + '.extract', MD2PO + '._dump_link_references')),
          Task('po2md document', initial(PO2MD), functions=(PO2MD + '.translate', PO2MD + '._append_link_references')),
          Task('messages stored', storing_task, functions=(SAVE_MSGID,)),
          Task('messages translated', lookup_task, functions=(PO2MD + '._translate_msgid',)),
          Task('texts', texts, functions=('mdpo.md4c.attribute_text', 'mdpo.command.parse_mdpo_html_command',
                                          'mdpo.md.parse_link_references')),
          Task('delimiters of code', delimiters, functions=('mdpo.text.min_not_max_chars_in_a_row',))]
TRUSTED = ['md4c delivers well nested blocks: items directly in lists, lists with items, leaf blocks without blocks;'
           ' nothing is assumed about spans', 'md_ulb_pwrap.ulb_wrap_paragraph: no exceptions',
           'the regular expressions of commands and link references: functions of the text']
