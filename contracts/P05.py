"""P05: contexts and translator comments apply to exactly the next message."""
from contracts.messages import *
from contracts import P03, P04


def notes(tool, cls):
    return {k: tool.fields[k] for k in NOTES[cls]}


def used_up(h, tool, cls):
    for k in NOTES[cls]:
        h.check(f'the next message starts without {k}', h.eq(tool.fields[k], None))


def unchanged(h, tool, cls, before):
    for k in NOTES[cls]:
        h.check(f'without a message the pending notes persist ({k})', h.eq(tool.fields[k], before[k]))


def core_bool(x):
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def current(cls):
    """_save_current_msgid from any state: the message has the pending context and comment."""
    def f(h):
        I = h.I
        log = Log()
        leaves(h)
        storing(h, log)
        tool = any_state(h, cls)
        before = notes(tool, cls)
        msgid = tool.fields['current_msgid']
        args = (h.fresh('str', 'msgstr'), h.fresh('bool', 'fuzzy')) if cls == MD2PO else ()
        try:
            h.method(tool, '_save_current_msgid', *args)
        except core.PyRaise:
            raise core.Infeasible() from None      # P08
        done = log.saved if cls == MD2PO else log.translated
        disabled = tool.fields['disabled_entries'].get()
        if not h.truth(z3.Not(h.eq(msgid, ''))):
            h.check('no message, nothing stored', len(done) == 0 and len(disabled) == 0)
            unchanged(h, tool, cls, before)
            return
        h.check('exactly one message', len(done) + len(disabled) == 1)
        for d in done:
            h.check('the text of the message', h.eq(d['msgid'], msgid))
            h.check('the message has the pending context', h.eq(d['msgctxt'], before['current_msgctxt']))
            h.check('the message has the pending comment', h.eq(d['tcomment'], before['current_tcomment']))
            if cls == MD2PO:
                own = lib.truth_term(I, args[0])
                h.check('the default translation', h.eq(d['msgstr'], args[0] if h.truth(own) else tool.fields['msgstr']))
                h.check('the fuzzy mark', h.eq(d['fuzzy'], args[1]))
        for e in disabled:
            h.check('the text of the disabled message', h.eq(entry_field(h, e, 'msgid'), msgid))
            h.check('the disabled message has the pending context',
                    h.eq(entry_field(h, e, 'msgctxt'), before['current_msgctxt']))
            h.check('the disabled message has the pending comment', z3.Or(*[
                core_bool(h.eq(entry_field(h, e, k), before['current_tcomment'])) for k in ('tcomment', 'comment')]))
        used_up(h, tool, cls)
    return Task(f'{short(cls)} message', f, functions=(cls + '._save_current_msgid',))


def commands(cls):
    """command from any state."""
    def f(h):
        I = h.I
        log = Log()
        leaves(h)
        storing(h, log)
        saving(h, cls, log)
        tool = any_state(h, cls)
        before = notes(tool, cls)
        msgid = tool.fields['current_msgid']
        name, original = h.fresh('str', 'command'), h.fresh('str', 'original')
        comment = h.fresh(('opt', 'str'), 'comment')
        # inside of an HTML block (see the obligation of enter_block) there is no text of a message
        h.assume(z3.Or(z3.Not(h.eq(name, 'mdpo-include')), h.eq(msgid, '')))
        st, r = h.outcome_method(tool, 'command', name, comment, original)
        which = next((n for n in ('context', 'translator', 'include') if h.truth(h.eq(name, 'mdpo-' + n))), None)
        c = I.force(comment)
        given = c is not None and h.truth(z3.Not(h.eq(c, '')))
        if which and cls == MD2PO and not given or st != 'ok':
            h.check('refused iff it is a command of the extractor without text', bool(
                which and cls == MD2PO and not given) and st != 'ok')
            if st != 'ok':
                h.check('refused with a ValueError', r.cls is ValueError)
                h.check('the error names the command', lib.contains(I, r.args[0], original))
            return
        h.check('nothing is stored but as current message', not log.saved and not log.translated and
                not tool.fields['disabled_entries'].get())
        if which == 'include' and cls == MD2PO:
            h.check('an include command gives exactly one message', len(log.flushed) == 1)
            for x in log.flushed:
                h.check('the message is the text of the command', h.eq(x['msgid'], c))
                for k in NOTES[cls]:
                    h.check(f'an included message has the pending notes ({k})', h.eq(x[k], before[k]))
                h.check('an included message has no translation', z3.And(h.eq(x['msgstr'], ''), h.eq(x['fuzzy'], False)))
            return
        h.check('no message', not log.flushed)
        h.check('the text of the current message is kept', h.eq(tool.fields['current_msgid'], msgid))
        want = dict(before)
        if which == 'context' and given:
            want['current_msgctxt'] = c
        if which == 'translator' and given:
            want['current_tcomment'] = c
        for k in NOTES[cls]:
            h.check(f'{k} after the command', h.eq(tool.fields[k], want[k]))
    return Task(f'{short(cls)} command', f, functions=(cls + '.command',))


def step(h, tool, cls, name, args, run, log):
    md = md4c(h)
    before = notes(tool, cls)
    run()
    first = next((x for x in log.flushed if x['some']), None)
    if first:
        for k in NOTES[cls]:
            h.check(f'the message is saved with the pending notes ({k})', h.eq(first[k], before[k]))
    if first or name == 'leave_block' and args[0] is md.BlockType.CODE:
        used_up(h, tool, cls)
    else:
        unchanged(h, tool, cls, before)
    for d in log.saved + log.translated:
        h.check('messages are only stored as current messages, and titles', name == 'enter_span')
        h.check('titles have no notes', z3.And(h.eq(d['msgctxt'], None), h.eq(d['tcomment'], None)))
    h.check('commands only come from HTML', name == 'text' or not log.commands)
    if name == 'enter_block' and args[0] is md.BlockType.HTML:
        h.check('the text before a command is not part of a message after it',
                h.eq(tool.fields['current_msgid'], ''))


def stored(h):
    """_save_msgid: the extracted entry has the given text, context and comment."""
    I = h.I
    leaves(h)
    tool = any_state(h, MD2PO)
    tool.fields['_current_top_level_block_type'] = md4c(h).BlockType.P.value
    I.contracts['mdpo.po.find_entry_in_entries'] = lambda I, v: I.ctx.fresh(('opt', ('ref', 'POEntry')), 'equal')
    tool.fields['pofile'] = VObj(I.ctx, NativeClass('POFile', {
        'append': lambda I, o, e: kept.append(e), '__contains__': lambda I, o, e: I.ctx.fresh('bool', 'there').e}), {})
    kept = []
    a = dict(msgid=h.fresh('str', 'msgid'), msgstr=h.fresh('str', 'msgstr'), tcomment=h.fresh(('opt', 'str'), 'tcomment'),
             msgctxt=h.fresh(('opt', 'str'), 'msgctxt'), fuzzy=h.fresh('bool', 'fuzzy'))
    h.method(tool, '_save_msgid', **a)
    found = tool.fields['found_entries'].get()
    h.check('at most one entry', len(found) <= 1)
    for e in found + kept:
        h.check('the text', h.eq(entry_field(h, e, 'msgid'), a['msgid']))
        h.check('the context', h.eq(entry_field(h, e, 'msgctxt'), a['msgctxt']))
        h.check('the comment', h.eq(entry_field(h, e, 'comment'), a['tcomment']))


def element(h):
    """_process_replacer: the text of an element is looked up with the pending context, which is used up."""
    I = h.I
    tool = P03.html_tool(h)
    tool.fields['replacer'] = P03.Queue(h).obj
    ctxt = tool.fields['current_msgctxt']
    asked = []

    def get(I, o, k, d=None):
        asked.append((None, k))
        return I.ctx.fresh(('opt', 'str'), 'translation')

    def get_context(I, o, c, d=None):
        def g(I, o, k, d=None):
            asked.append((c, k))
            return I.ctx.fresh(('opt', 'str'), 'translation')
        return VObj(I.ctx, NativeClass('dict', {'get': g}), {})
    tool.fields['translations'] = VObj(I.ctx, NativeClass('dict', {'get': get}), {})
    tool.fields['translations_with_msgctxt'] = VObj(I.ctx, NativeClass('dict', {'get': get_context}), {})
    I.contracts[HTML + '._merge_adyacent_tags'] = lambda I, v: I.ctx.fresh('str', 'html')
    I.contracts['mdpo.mdpo2html._html_attrs_to_str'] = lambda I, v: I.ctx.fresh('str', 'attributes')
    h.method(tool, '_process_replacer')
    disabled = tool.fields['disabled_entries'].get()
    h.check('one message at most', len(disabled) + len(asked) <= 1)
    if not disabled and not asked:
        h.check('without a message the context persists', h.eq(tool.fields['current_msgctxt'], ctxt))
        return
    for c, k in asked:
        some = h.truth(lib.truth_term(I, ctxt))
        h.check('looked up with the pending context', h.eq(c, ctxt) if some else c is None)
    for e in disabled:
        h.check('the disabled message has the pending context', h.eq(entry_field(h, e, 'msgctxt'), ctxt))
    h.check('the next message starts without context', h.eq(tool.fields['current_msgctxt'], None))


def constructed(cls):
    def f(h):
        tool = new_tool(h, cls)
        for k in NOTES[cls]:
            h.check(f'no pending notes at the start ({k})', h.eq(tool.fields[k], None))
    return Task(f'{short(cls)} start', f, functions=(cls + '.__init__',))


TASKS = [current(MD2PO), current(PO2MD), commands(MD2PO), commands(PO2MD), constructed(MD2PO), constructed(PO2MD),
         Task('mdpo2html commands', P04.html, functions=(HTML + '.handle_comment',)),
         Task('md2po entry', stored, functions=(MD2PO + '._save_msgid',)),
         Task('mdpo2html element', element, functions=(HTML + '._process_replacer',))] + each_callback(step)
TRUSTED = P04.TRUSTED
