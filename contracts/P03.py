"""P03: disable and enable commands select exactly the intended messages."""
from contracts.messages import *
from contracts import P04


def selected(h, v):
    """A message is selected with these marks."""
    t = {k: h.enc(v[k], 'bool') for k in MARKS}
    return z3.Or(t['enable_next_block'], z3.And(z3.Not(t['disable']), z3.Not(t['disable_next_block'])))


def marks(tool):
    return {k: tool.fields[k] for k in MARKS}


def used_up(h, tool, before):
    h.check('the pending disable-next-block is used up by the message', h.eq(tool.fields['disable_next_block'], False))
    h.check('the pending enable-next-block is used up by the message', h.eq(tool.fields['enable_next_block'], False))
    h.check('the region persists', h.eq(tool.fields['disable'], before['disable']))


def unchanged(h, tool, before, what='without a message the marks persist'):
    for k in MARKS:
        h.check(f'{what} ({k})', h.eq(tool.fields[k], before[k]))


def current(cls):
    """_save_current_msgid from any state."""
    def f(h):
        I = h.I
        log = Log()
        leaves(h)
        storing(h, log)
        tool = any_state(h, cls)
        before = marks(tool)
        msgid, ctxt = tool.fields['current_msgid'], tool.fields['current_msgctxt']
        args = (h.fresh('str', 'msgstr'), h.fresh('bool', 'fuzzy')) if cls == MD2PO else ()
        try:
            h.method(tool, '_save_current_msgid', *args)
        except core.PyRaise:
            raise core.Infeasible() from None      # P08
        done = log.saved if cls == MD2PO else log.translated
        disabled = tool.fields['disabled_entries'].get()
        if not h.truth(z3.Not(h.eq(msgid, ''))):
            h.check('no message, nothing stored', len(done) == 0 and len(disabled) == 0)
            unchanged(h, tool, before)
            return
        sel = selected(h, before)
        h.check('extracted or translated iff selected', z3.BoolVal(len(done) == 1) == sel)
        h.check('recorded as disabled iff not selected', z3.BoolVal(len(disabled) == 1) == z3.Not(sel))
        for d in done:
            h.check('the message is the current one', h.eq(d['msgid'], msgid))
        for e in disabled:
            h.check('the disabled message is the current one', h.eq(entry_field(h, e, 'msgid'), msgid))
        h.check('the message ends', h.eq(tool.fields['current_msgid'], ''))
        used_up(h, tool, before)
        if cls == PO2MD:
            h.check('the text is written from here on', z3.BoolVal(True))
    return Task(f'{short(cls)} message', f, functions=(cls + '._save_current_msgid',))


def commands(cls):
    """command from any state."""
    def f(h):
        log = Log()
        leaves(h)
        storing(h, log)
        saving(h, cls, log)
        tool = any_state(h, cls)
        before = marks(tool)
        name = h.fresh('str', 'command')
        st, r = h.outcome_method(tool, 'command', name, h.fresh(('opt', 'str'), 'comment'), h.fresh('str', 'original'))
        is_ = lambda *n: h.truth(z3.Or([h.eq(name, 'mdpo-' + x) for x in n]))
        want = dict(before)
        if is_('disable-next-block', 'disable-next-line'):
            want['disable_next_block'] = True
        elif is_('enable-next-block', 'enable-next-line'):
            want['enable_next_block'] = True
        elif is_('disable'):
            want['disable'] = True
        elif is_('enable'):
            want['disable'] = False
        elif log.flushed:
            h.check('a message only for an include command', is_('include'))
            if log.flushed[0]['some']:
                want.update(disable_next_block=False, enable_next_block=False)
        for k in MARKS:
            h.check(f'{k} after the command', h.eq(tool.fields[k], want[k]))
        h.check('nothing else is stored or translated', not log.saved and not log.translated)
        h.check('nothing else is recorded as disabled', not tool.fields['disabled_entries'].get())
        h.check('at most one message', len(log.flushed) <= 1)
    return Task(f'{short(cls)} command', f, functions=(cls + '.command',))


def step(h, tool, cls, name, args, run, log):
    md = md4c(h)
    before = marks(tool)
    msgid = tool.fields['current_msgid']
    run()
    disabled = tool.fields['disabled_entries'].get()
    stored = log.saved + log.translated
    if name == 'enter_span' and cls == MD2PO and (stored or disabled):
        # plain text: the titles of links and images are messages
        sel = selected(h, before)
        a = h.I.force(args[1].get()['title'])
        title = lib.uf(h.I, 'attribute_text', [a], 'str')
        h.check('a title is extracted iff it is selected', z3.BoolVal(len(stored) == 1) == sel)
        h.check('a title is recorded as disabled iff it is not selected', z3.BoolVal(len(disabled) == 1) == z3.Not(sel))
        for m in [d['msgid'] for d in stored] + [entry_field(h, e, 'msgid') for e in disabled]:
            h.check('the message is the title', h.eq(m, title))
    else:
        h.check('messages are only stored as current messages', not stored and not disabled)
    first = next((x for x in log.flushed if x['some']), None)
    if first:
        for k in MARKS:
            h.check(f'the message is saved with the pending marks ({k})', h.eq(first[k], before[k]))
    if first or name == 'leave_block' and args[0] is md.BlockType.CODE:
        used_up(h, tool, before)
    else:
        unchanged(h, tool, before)
    h.check('commands only come from HTML', name == 'text' or not log.commands)
    if name == 'enter_block' and args[0] is md.BlockType.HTML:
        h.check('the text before a command is not part of a message after it',
                h.eq(tool.fields['current_msgid'], ''))


# ---------------------------------------------------------------------------- ends of files and translations

def files(h):
    """The extractor goes on with the next file without marks."""
    I = h.I
    leaves(h)
    tool = new_tool(h, MD2PO, glob=True)
    h.assume(z3.Length(tool.fields['filepaths'].get().e) > 0)
    I.contracts[MD2PO + '._dump_link_references'] = lambda I, v: [
        I.setattr(v['self'], k, I.ctx.fresh('bool', k)) for k in MARKS] and None
    I.env['fs.undecodable'] = False
    for n in 'remove_not_found_entries', 'mark_not_found_entries_as_obsoletes':
        I.contracts['mdpo.po.' + n] = lambda I, v: None

    def script(ev):
        for k in MARKS:
            h.check(f'no marks at the start of a file ({k})', h.eq(tool.fields[k], False))
        for k in MARKS:
            I.setattr(tool, k, h.fresh('bool', k))
    try:
        drive(h, tool, script, finish=True)
    except core.PyRaise:
        raise core.Infeasible() from None      # files that cannot be read


def translated(h):
    """A translation ends without marks."""
    I = h.I
    leaves(h)
    tool = new_tool(h, PO2MD)
    for k in MARKS:
        h.check(f'no marks at the start ({k})', h.eq(tool.fields[k], False))

    def script(ev):
        for k in MARKS:
            I.setattr(tool, k, h.fresh('bool', k))
    drive(h, tool, script, finish=True)
    for k in MARKS:
        h.check(f'no marks at the end of a translation ({k})', h.eq(tool.fields[k], False))


# ---------------------------------------------------------------------------- HTML

class Queue:
    """Unknown list of the pieces of an element."""

    def __init__(self, h):
        def attrs(I):
            A = NativeClass('OrderedDict', {
                'get': lambda I, o, k, d=None: I.ctx.fresh(('opt', 'str'), 'attribute'),
                '__getitem__': lambda I, o, k: I.ctx.fresh('str', 'attribute'),
                '__bool__': lambda I, o: I.ctx.fresh('bool', 'attributes').e,
                '__iter__': lambda I, o: I.ctx.fresh(('list', 'str'), 'attributes'),
                'items': lambda I, o: I.ctx.fresh(('list', ('tuple', 'str', ('opt', 'str'))), 'attributes')})
            return VObj(I.ctx, A, {})

        def piece(I):
            return (I.ctx.fresh('str', 'handle'), I.ctx.fresh('str', 'handled'), attrs(I))
        def pieces(I, o):
            n = I.ctx.fresh('int', 'pieces').e
            I.ctx.assume(n >= 0)
            return lib.SymIter(n, lambda i: piece(I))
        self.appended = []
        Q = NativeClass('list', {'pop': lambda I, o, *a: piece(I), '__iter__': pieces, '__bool__': lambda I, o: I.ctx.fresh('bool', 'more').e,
                                 'append': lambda I, o, x: self.appended.append(x)})
        self.obj = VObj(h.ctx, Q, {})


def html_tool(h):
    I = h.I
    html_parser(h, lambda text: None)
    stub_inputs(h)
    tool = h.call(HTML, 'x')
    for k in MARKS:
        h.check(f'no marks at the start ({k})', h.eq(tool.fields[k], False))
        tool.fields[k] = h.fresh('bool', k)
    tool.fields['current_msgctxt'] = h.fresh(('opt', 'str'), 'current_msgctxt')
    tool.fields['output'] = h.fresh('str', 'output')
    tool.fields['merge_adjacent_markups'] = h.fresh('bool', 'merge')
    tool.fields['translations'] = h.fresh(('map', 'str', 'str'), 'translations')
    tool.fields['translations_with_msgctxt'] = h.fresh(('map', 'str', ('map', 'str', 'str')), 'translations_with_msgctxt')
    tool.fields['context'] = h.fresh(('list', 'str'), 'context')
    return tool


def element(h):
    """_process_replacer: the text of an element is a message if it is not blank."""
    I = h.I
    tool = html_tool(h)
    q = Queue(h)
    tool.fields['replacer'] = q.obj
    before = marks(tool)
    asked = []

    def get(kind):
        def g(I, o, k, d=None):
            if kind == 'context':
                return VObj(I.ctx, NativeClass('dict', {'get': get('text')}), {})
            asked.append(k)
            return I.ctx.fresh(('opt', 'str'), 'translation')
        return g
    tool.fields['translations'] = VObj(I.ctx, NativeClass('dict', {'get': get('text')}), {})
    tool.fields['translations_with_msgctxt'] = VObj(I.ctx, NativeClass('dict', {'get': get('context')}), {})
    I.contracts[HTML + '._merge_adyacent_tags'] = lambda I, v: I.ctx.fresh('str', 'html')
    I.contracts['mdpo.mdpo2html._html_attrs_to_str'] = lambda I, v: I.ctx.fresh('str', 'attributes')
    h.method(tool, '_process_replacer')
    disabled = tool.fields['disabled_entries'].get()
    h.check('one message at most', len(disabled) + len(asked) <= 1)
    if not disabled and not asked:
        unchanged(h, tool, before)
        return
    h.check('translated iff selected', z3.BoolVal(len(asked) == 1) == selected(h, before))
    m = asked[0] if asked else entry_field(h, disabled[0], 'msgid')
    h.check('a message has text', z3.Not(h.eq(lib.call_method(I, m, 'strip', [], {}), '')))
    used_up(h, tool, before)


TASKS = [current(MD2PO), current(PO2MD), commands(MD2PO), commands(PO2MD),
         Task('mdpo2html commands', P04.html, functions=(HTML + '.handle_comment',)),
         Task('md2po files', files, functions=(MD2PO + '.extract',)),
         Task('po2md end', translated, functions=(PO2MD + '.translate',)),
         Task('mdpo2html element', element, functions=(HTML + '._process_replacer',))] + each_callback(step)
TRUSTED = P04.TRUSTED
