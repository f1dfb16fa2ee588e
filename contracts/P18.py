"""P18: link reference definitions are stored and written once the document ends."""
from contracts.messages import *

REF = ('tuple', 'str', 'str', ('opt', 'str'))
REFS = ('list', REF)
HANDLER = ('opaque', 'handler')
MSG = ('tuple', 'str', 'str', 'bool')
END = {MD2PO: '_dump_link_references', PO2MD: '_append_link_references'}


def found(h):
    """Definitions of a content: the groups of the lines that are definitions, in order."""
    I = h.I
    content = h.fresh('str', 'content')

    def groups(I, s):
        if not I.truth(lib.uf(I, 'is a definition', [s], 'bool')):
            return None
        return tuple(lib.uf(I, f'definition {n}', [s], T) for n, T in (('target', 'str'), ('href', 'str'), ('title', ('opt', 'str'))))
    I.env['re.match'] = groups
    lines = lib.call_method(I, content, 'splitlines', [], {})

    def step(I, st, x, i):
        s = lib.call_method(I, x, 'strip', [], {})
        if not I.truth(lib.call_method(I, s, 'startswith', ['['], {})):
            return st
        g = groups(I, s)
        return (append(I, st[0], g),) if g else st
    want = h.fold('definitions', lines, [('refs', REFS)], (empty(I, REF),), step)
    r = h.call('mdpo.md.parse_link_references', content)
    h.check('every definition in order', h.eq(h.list_of(r), want.total()[0]))


class Skips:
    """Handlers of the event of the definitions: any results, depending on the definition."""

    def __init__(self, h, n):
        I = h.I
        self.n = n
        self.handlers = [h.fresh(HANDLER, f'handler{j}') for j in range(n)]

        def call(I, f, a, k):
            a = a[1:]
            j = next((j for j, x in enumerate(self.handlers) if x is f), None)
            if j is None or len(a) != 3:
                raise Unsupported('handler of a definition')
            b = self.false(I, j, a)
            x = I.ctx.fresh(('opaque', 'any'), 'result')
            I.ctx.assume(z3.Not(lib.is_term(I, x, False)))
            return Choice([(b, False), (z3.Not(b), x)])
        I.env['call:' + str(HANDLER)] = call

    def false(self, I, j, a):
        return lib.truth_term(I, lib.uf(I, f'handler {j} skips', list(a), 'bool'))

    def skips(self, I, ref):
        return I.truth(z3.Or([z3.BoolVal(False)] + [self.false(I, j, ref) for j in range(self.n)]))

    def events(self, I):
        if not self.n:
            return VDict(I.ctx, {})
        return VDict(I.ctx, {'link_reference': VList(I.ctx, list(self.handlers), T=HANDLER)})


def parts(I, ref):
    t, href, title = ref
    title = I.force(title)
    tp = '' if title is None or not I.truth(title) else cat(I, ' "', title, '"')
    return t, href, tp


def prepared(h, cls, n):
    I = h.I
    leaves(h)
    tool = any_state(h, cls)
    sk = Skips(h, n)
    tool.fields['events'] = sk.events(I)
    refs = h.fresh(REFS, 'link_references')
    if not h.truth(h.fresh('bool', 'looked for')):
        refs = None
    tool.fields['link_references'] = refs
    return tool, sk, refs


def stored(h, n):
    """md2po, from any state."""
    I = h.I
    tool, sk, refs = prepared(h, MD2PO, n)
    log = VObj(I.ctx, NativeClass('log'), {'saved': empty(I, MSG), 'disabled': False})

    def save(I, v):
        lib.list_append(I, log.fields['saved'], (v['msgid'], v['msgstr'], v['fuzzy']))
    I.contracts[MD2PO + '._save_msgid'] = save
    tool.fields['disabled_entries'] = VObj(I.ctx, NativeClass('disabled', {
        'append': lambda I, o, e: I.setattr(log, 'disabled', True)}), {})

    def step(I, st, x, i):
        if sk.skips(I, x):
            return st
        t, href, tp = parts(I, x)
        hp = cat(I, ' ', href) if I.truth(href) else ''
        msg = cat(I, '[', t, ']:', hp, tp)
        return (append(I, st[0], (msg, msg, True)),)
    want = refs and h.fold('stored', refs, [('saved', ('list', MSG))], (empty(I, MSG),), step)
    h.method(tool, END[MD2PO])
    got = log.fields['saved']
    h.check('no definition is disabled', z3.Not(h.term(log.fields['disabled'])))
    if refs is None:
        h.check('nothing is stored', h.eq(got, empty(I, MSG)))
    else:
        h.check('every definition is stored with itself as fuzzy translation, in order', h.eq(got, want.total()[0]))


def seen_too(I, seen, x):
    if isinstance(seen, VSet):
        return VSet(I.ctx, z3.Store(core.enc(I.ctx, seen, ('set', 'str')), core.enc(I.ctx, x, 'str'), True), T='str')
    return append(I, seen, x)


def written(h, n):
    """po2md, from any state."""
    I = h.I
    tool, sk, refs = prepared(h, PO2MD, n)

    def translate(I, v):
        return lib.uf(I, 'translation', [v['msgid'], v['msgctxt']], 'str')
    I.contracts[PO2MD + '._translate_msgid'] = translate
    before = lib.list_copy(I, tool.fields['outputlines'])

    def step(I, st, x, i):
        lines, seen = st
        if sk.skips(I, x):
            return st
        t, href, tp = parts(I, x)
        ht = cat(I, ' ', href, tp)
        if I.truth(lib.contains(I, seen, ht)):
            return st
        return (append(I, lines, lib.uf(I, 'translation', [cat(I, '[', t, ']:', ht), None], 'str')), seen_too(I, seen, ht))
    # the written ones kept in order or as a set: both say the same
    folds = refs and [h.fold(n, refs, [('lines', ('list', 'str')), ('seen', (n, 'str'))], (before, s), step)
                      for n, s in (('list', empty(I)), ('set', VSet(I.ctx, [], T='str')))]
    h.method(tool, END[PO2MD])
    got = tool.fields['outputlines']
    if refs is None:
        h.check('nothing is written', h.eq(got, before))
    elif h.truth(z3.Length(refs.get().e) > 0):
        h.check('every different destination and title is written once, in order', z3.Or([
            h.eq(got, w) for f in folds for w in (f.total()[0], append(I, f.total()[0], ''))]))
    else:
        h.check('nothing is written without definitions', h.eq(got, before))


def looked(h, tool, cls, name, args, run, log):
    """The definitions are those of the content, looked for in links and images."""
    I = h.I
    content = tool.fields['content'] = h.fresh('str', 'content')
    before = tool.fields['link_references'] = h.fresh(('opt', REFS), 'link_references')
    nested = z3.BoolVal(False)
    f = tool.fields.get('_current_imgspan')
    if f is not None:
        nested = h.term(I.truth_term(f))
    run()
    after = tool.fields['link_references']
    refs = lib.uf(I, 'link references', [content], REFS)
    b = I.force(before)
    if b is not None:
        h.check('the definitions are kept', h.eq(after, b))
        return
    h.check('the content is the same', h.eq(tool.fields['content'], content))
    link = name == 'enter_span' and not I.truth(tool.fields.get('plaintext', False)) and args[0].name in ('A', 'IMG')
    if link and h.truth(z3.Not(nested) if args[0].name == 'IMG' else z3.BoolVal(True)):
        h.check('the definitions are those of the content', h.eq(after, refs))
    elif link:
        # not reachable: the outer image looked for them
        pass
    else:
        h.check('nothing is looked for without links or images', I.force(after) is None)


def files(h):
    """md2po: once at the end of each file or content, for its definitions only."""
    I = h.I
    leaves(h)
    glob = h.truth(h.fresh('bool', 'files'))
    tool = new_tool(h, MD2PO, glob=glob)
    for n in 'remove_not_found_entries', 'mark_not_found_entries_as_obsoletes':
        I.contracts['mdpo.po.' + n] = lambda I, v: h.check('everything is stored before reconciling', z3.Not(h.term(log.fields['open'])))
    log = VObj(I.ctx, NativeClass('log'), {'open': False, 'refs': None, 'n': 0})
    h.check('no definitions before the first document', I.force(tool.fields['link_references']) is None)

    def dump(I, v):
        h.check('once after each document', h.term(log.fields['open']))
        h.check('the definitions of the document', h.eq(v['self'].fields['link_references'], log.fields['refs']))
        I.setattr(log, 'open', False)
    I.contracts[MD2PO + '.' + END[MD2PO]] = dump

    def script(ev):
        h.check('after each document', z3.Not(h.term(log.fields['open'])))
        h.check('no definitions of other documents', I.force(tool.fields['link_references']) is None)
        h.check('the content is the one of the document', h.eq(ev.content, tool.fields['content']))
        refs = I.ctx.fresh(('opt', REFS), 'refs')
        I.setattr(tool, 'link_references', refs)
        I.setattr(log, 'refs', refs)
        I.setattr(log, 'open', True)
    try:
        drive(h, tool, script, finish=True, md_encoding='utf-8')
    except core.PyRaise:
        raise core.Infeasible() from None      # files that cannot be read
    h.check('after the last document', z3.Not(h.term(log.fields['open'])))


def document(h):
    """po2md: once at the end of each document, before the output is made."""
    I = h.I
    leaves(h)
    tool = new_tool(h, PO2MD)
    h.check('no definitions before the first document', I.force(tool.fields['link_references']) is None)
    refs = h.fresh(('opt', REFS), 'refs')
    log = []
    mark = h.fresh('str', 'mark')

    def dump(I, v):
        log.append('end')
        h.check('the definitions of the document', h.eq(v['self'].fields['link_references'], refs))
        lib.list_append(I, v['self'].fields['outputlines'], mark)
    I.contracts[PO2MD + '.' + END[PO2MD]] = dump
    lines = h.fresh(('list', 'str'), 'lines')

    def script(ev):
        log.append('document')
        h.check('no definitions of other documents', I.force(tool.fields['link_references']) is None)
        h.check('the content is the one of the document', h.eq(ev.content, tool.fields['content']))
        I.setattr(tool, 'link_references', refs)
        I.setattr(tool, 'outputlines', lib.list_copy(I, lines))
    drive(h, tool, script, finish=True)
    h.check('once at the end of the document', log == ['document', 'end'])
    h.check('none kept for the next document', I.force(tool.fields['link_references']) is None)
    h.check('the definitions end the output', h.eq(tool.fields['output'], lib.call_method(I, '\n', 'join', [
        append(I, lines, mark)], {})))


TASKS = [Task(f'md2po definitions, {n} handlers', lambda h, n=n: stored(h, n), functions=(
    MD2PO + '.' + END[MD2PO], MD2PO + '._save_current_msgid')) for n in (0, 1, 2)] + [
    Task(f'po2md definitions, {n} handlers', lambda h, n=n: written(h, n), functions=(PO2MD + '.' + END[PO2MD],))
    for n in (0, 1, 2)] + [
         Task('definitions of a content', found, functions=('mdpo.md.parse_link_references',)),
         Task('md2po end of documents', files, functions=(MD2PO + '.extract',)),
         Task('po2md end of documents', document, functions=(PO2MD + '.translate',))] + each_callback(looked)
TRUSTED = ['the regular expression of the definitions (mdpo.md.LINK_REFERENCE_REGEX), a function of each line']
