"""Steps of the extractor and the translator, each one from any state, against the contracts of the functions
that they call: _save_current_msgid (saves the current message) and command (executes a command)."""
from contracts.state import *

HTML = 'mdpo.mdpo2html.MdPo2HTML'
MARKS = ('disable', 'disable_next_block', 'enable_next_block')
NOTES = {MD2PO: ('current_msgctxt', 'current_tcomment'), PO2MD: ('current_msgctxt', 'current_tcomment'),
         HTML: ('current_msgctxt',)}
LISTS_OF_ENTRIES = ('disabled_entries', 'found_entries', 'translated_entries')


def short(cls):
    return cls.split('.')[1]


class Log:
    """What a step did through the functions under contract."""

    def __init__(self):
        self.saved, self.flushed, self.commands, self.translated = [], [], [], []

    def count(self):
        return [len(x) for x in (self.saved, self.flushed, self.commands, self.translated)]


def command_contract(I, v):
    """The search of a command in a comment: none, or a name that is not empty and perhaps a text."""
    none = lib.truth_term(I, lib.uf(I, 'no command', [v['value']], 'bool'))
    if I.truth(none):
        return (None, None)
    name = lib.uf(I, 'command', [v['value']], 'str')
    I.ctx.assume(lib.truth_term(I, name))
    return (name, lib.uf(I, 'comment', [v['value']], ('opt', 'str')))


def leaves(h):
    """Contracts of functions that neither read nor change the state of the tool."""
    I = h.I
    attribute_contract(I)
    I.contracts['mdpo.md.parse_link_references'] = lambda I, v: lib.uf(
        I, 'link references', [v['content']], ('list', ('tuple', 'str', 'str', ('opt', 'str'))))
    I.contracts['mdpo.text.min_not_max_chars_in_a_row'] = lambda I, v: lib.uf(
        I, 'shortest delimiter', [v['char'], v['text']], 'int')

    I.contracts['mdpo.command.parse_mdpo_html_command'] = command_contract


def storing(h, log):
    """Contracts of the functions that store or look up a message: the message and its notes."""
    I = h.I

    def save(I, v):
        log.saved.append({k: v.get(k) for k in ('msgid', 'msgstr', 'tcomment', 'msgctxt', 'fuzzy')})

    def translate(I, v):
        log.translated.append({k: v.get(k) for k in ('msgid', 'msgctxt', 'tcomment')})
        return lib.uf(I, 'translation', [v['msgid'], v['msgctxt']], 'str')
    I.contracts[MD2PO + '._save_msgid'] = save
    I.contracts[PO2MD + '._translate_msgid'] = translate


def saving(h, cls, log):
    """Contract of _save_current_msgid (proved by ``current``): nothing for an empty message, else uses up the
    pending commands and notes and empties the message."""
    I = h.I

    def flush(I, v):
        t = v['self']
        msg = t.fields['current_msgid']
        some = h.truth(z3.Not(h.eq(msg, '')))
        log.flushed.append(dict(some=some, msgid=msg, msgstr=v.get('msgstr'), fuzzy=v.get('fuzzy'),
                                **{k: t.fields[k] for k in MARKS + NOTES[cls]}))
        if some:
            for k in MARKS[1:]:
                I.setattr(t, k, False)
            for k in NOTES[cls]:
                I.setattr(t, k, None)
            I.setattr(t, 'current_msgid', '')
            if cls == PO2MD:
                I.setattr(t, 'current_line', I.ctx.fresh('str', 'current_line'))
                I.setattr(t, '_codespan_inside_current_msgid', False)
                I.setattr(t, '_aimg_title_inside_current_msgid', False)
    I.contracts[cls + '._save_current_msgid'] = flush


def commanded(h, cls, log):
    """Contract of command (proved by ``command`` tasks): recorded, its effect is not seen by the caller."""
    def c(I, v):
        log.commands.append((v['mdpo_command'], v['comment'], v['original_command']))
    h.I.contracts[cls + '.command'] = c


def any_state(h, cls, plaintext=False, lists=LISTS_OF_ENTRIES):
    """The tool in any state (events without handlers)."""
    tool = new_tool(h, cls, **({'plaintext': True} if plaintext else {}))
    tool.fields['command_aliases'] = h.fresh(('map', 'str', 'str'), 'aliases')
    return havoc(h, tool, cls, keep=lists)


def entry_field(h, e, name):
    """Attribute of an entry."""
    return h.I.getattr(e, name)


STEPS = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text')


def callback_args(h, name):
    """Any event for that callback."""
    if name.endswith('block'):
        b = choose(h, 'block', blocks())
        return b, block_details(h, b)
    if name.endswith('span'):
        s = choose(h, 'span', spans())
        return s, span_details(h, s)
    return md4c(h).TextType.NORMAL, h.fresh('str', 'text')


def callback(h, tool, cls, name, args, plaintext=False):
    """Calls the function that the tool gives to the parser for that event."""
    fn = name
    if cls == MD2PO and name.endswith('span') and not plaintext:
        fn = 'not_plaintext_' + name
    return h.method(tool, fn, *args)


def each_callback(check, classes=(MD2PO, PO2MD), plaintext=True):
    """One task for each callback of each tool: check(h, tool, cls, name, args, run, log)."""
    out = []

    def task(cls, name, plain):
        def f(h):
            log = Log()
            leaves(h)
            storing(h, log)
            saving(h, cls, log)
            commanded(h, cls, log)
            tool = any_state(h, cls, plain)
            args = callback_args(h, name)

            def run():
                try:
                    callback(h, tool, cls, name, args, plain)
                except core.PyRaise:
                    raise core.Infeasible() from None      # P08
            check(h, tool, cls, name, args, run, log)
        fn = ('not_plaintext_' if cls == MD2PO and name.endswith('span') and not plain else '') + name
        return Task(f'{short(cls)} {name}' + (' (plain text)' if plain else ''), f, functions=(cls + '.' + fn,))
    for cls in classes:
        for name in STEPS:
            out.append(task(cls, name, False))
    if plaintext and MD2PO in classes:
        out += [task(MD2PO, n, True) for n in ('enter_span', 'leave_span')]
    return out
