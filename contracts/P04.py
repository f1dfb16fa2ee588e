"""P04: command names, prefixes and aliases resolve to the documented commands."""
from contracts.common import *

DOCUMENTED = ['context', 'disable', 'disable-next-block', 'disable-next-line', 'enable', 'enable-next-block',
              'enable-next-line', 'include', 'include-codeblock', 'include-codeblocks', 'disable-codeblock',
              'disable-codeblocks', 'translator']
C = 'mdpo.command.'


def documented(e):
    """Is the text a documented command, with or without the prefix?"""
    return z3.Or([e == S(p + c) for c in DOCUMENTED for p in ('', 'mdpo-')])


def prefixed(e):
    return z3.If(z3.PrefixOf(S('mdpo-'), e), e, z3.Concat(S('mdpo-'), e))


def normalize(h):
    h.ctx.run.native = True
    v = h.fresh('str', 'name')
    r = h.I.force(h.call(C + 'normalize_mdpo_command', v))
    if r is None:
        h.check('refused only if it is not documented', z3.Not(documented(v.e)))
    else:
        h.check('accepted only if it is documented', documented(v.e))
        h.check('normal form', h.enc(r, 'str') == prefixed(v.e))


def names(h):
    got = h.list_of(h.call(C + 'get_valid_mdpo_command_names'))
    want = {p + c for c in DOCUMENTED for p in ('', 'mdpo-')}
    h.check('the valid names are the documented ones', got.concrete and set(got.get()) == want)


def normal_contract(I, v):
    """normalize_mdpo_command as an unknown function of the name (proved above)."""
    if I.truth(lib.uf(I, 'documented command', [v['value']], 'bool')):
        r = lib.uf(I, 'normal form', [v['value']], 'str')
        I.ctx.assume(core.enc(I.ctx, r, 'str') != S(''))
        return r
    return None


def aliases_fold(h, m):
    I = h.I

    def step(I, st, x, i):
        out, err, bad = st
        if I.truth(core.enc(I.ctx, err, 'bool')):
            return st
        alias, target = x
        if not I.truth(lib.uf(I, 'documented command', [target], 'bool')):
            return out, True, target
        return put(I, out, alias, lib.uf(I, 'normal form', [target], 'str')), False, bad
    return h.fold('aliases', lib.DictView(m, 'items'), [('map', ('map', 'str', 'str')), ('err', 'bool'), ('bad', 'str')],
                  (VDict(I.ctx, {}, K='str', V='str'), False, ''), step,
                  absorb=lambda I, st: SV('bool', core.enc(I.ctx, st[1], 'bool')))


def aliases(h):
    I = h.I
    I.contracts[C + 'normalize_mdpo_command'] = normal_contract
    m = fresh_items(h, 'str', 'str', 'aliases')
    f = aliases_fold(h, m)
    st, r = h.outcome(C + 'normalize_mdpo_command_aliases', m)
    out, err, bad = f.total()
    if st == 'ok':
        h.check('accepted only if every target is documented', z3.Not(h.term(err)))
        h.check('every alias is mapped to the normal form of its target', h.eq(r, out))
    else:
        h.check('refused with a ValueError', r.cls is ValueError)
        h.check('refused only if a target is not documented', err)
        h.check('the error names the target', lib.contains(I, r.args[0], cat(I, "'", bad, "'")))


def parsed(h):
    """Unknown result of the search of a command in a comment."""
    I = h.I
    text = h.fresh('str', 'text')
    cmd = h.fresh('str', 'command')
    comment = h.fresh(('opt', 'str'), 'comment')
    found = h.fresh('bool', 'found')
    h.assume(lib.truth_term(I, cmd))

    def c(I, v):
        h.check('the text of the comment is searched', h.eq(v['value'], text))
        return (cmd, comment) if I.truth(found) else (None, None)
    I.contracts[C + 'parse_mdpo_html_command'] = c
    return text, found, cmd, comment


def resolved(h, m, cmd):
    has, v = lib.dict_get(h.I, m, cmd)
    return v if h.truth(has) else cmd


def process(cls):
    def f(h):
        I = h.I
        text, found, cmd, comment = parsed(h)
        m = h.fresh(('map', 'str', 'str'), 'aliases')
        calls = []

        def command(I, v):
            calls.append((v['mdpo_command'], v['comment'], v['original_command']))
        I.contracts[cls + '.command'] = command
        o = h.instance(cls, {'command_aliases': m, '_inside_htmlblock': VList(I.ctx, [True, None])})
        h.method(o, '_process_command', text)
        if h.truth(found):
            h.check('exactly one command is executed', len(calls) == 1)
            if calls:
                h.check('the command is the target of the alias', h.eq(calls[0][0], resolved(h, m, cmd)))
                h.check('with the text of the comment', h.eq(calls[0][1], comment))
                h.check('and the name written in the document', h.eq(calls[0][2], cmd))
        else:
            h.check('no command is executed', len(calls) == 0)
    return Task(f'{cls.split(".")[1]} aliases in comments', f, functions=(cls + '._process_command',))


def command_text(h):
    """parse_mdpo_html_command: name and text that the regular expression found, the text without the blanks
    at its end."""
    I = h.I
    text, name = h.fresh('str', 'text'), h.fresh('str', 'name')
    comment, found = h.fresh(('opt', 'str'), 'comment'), h.fresh('bool', 'found')
    h.assume(lib.truth_term(I, name))

    def search(I, s):
        h.check('the regular expression is searched in the text', h.eq(s, text))
        return (name, comment) if I.truth(found) else None
    I.env['re.match'] = search
    a, b = h.call(C + 'parse_mdpo_html_command', text)
    if not h.truth(found):
        h.check('no command', a is None and b is None)
        return
    h.check('the name found', h.eq(a, name))
    c = I.force(comment)
    if c is None or not h.truth(lib.truth_term(I, c)):
        h.check('no text', I.force(b) is None)
    else:
        h.check('the text without the blanks at its end', h.eq(b, lib.call_method(I, c, 'rstrip', [' '], {})))


def html(h):
    I = h.I
    data = h.fresh('str', 'data')
    text, found, cmd, comment = parsed(h)
    h.assume(h.eq(text, cat(I, '<!--', data, '-->')))
    h.assume(found)
    m = h.fresh(('map', 'str', 'str'), 'aliases')
    cls = 'mdpo.mdpo2html.MdPo2HTML'

    def tail(I, v):
        # no effect other than on the output
        v['self'].fields['output'] = I.ctx.fresh('str', 'output')
    I.contracts[cls + '._remove_lastline_from_output_if_empty'] = tail
    before = {k: h.fresh('bool', k) for k in ('disable', 'disable_next_block', 'enable_next_block')}
    before['current_msgctxt'] = h.fresh(('opt', 'str'), 'current_msgctxt')
    fields = dict(before, command_aliases=m, replacer=VList(I.ctx, []), output=h.fresh('str', 'output'))
    o = h.instance(cls, dict(fields))
    h.method(o, 'handle_comment', data)
    c = resolved(h, m, cmd)

    def is_(*names):
        return h.truth(z3.Or([h.eq(c, n) if z3.is_expr(h.eq(c, n)) else z3.BoolVal(h.eq(c, n)) for n in names]))
    want = dict(before)
    if is_('mdpo-disable-next-block', 'mdpo-disable-next-line'):
        want['disable_next_block'] = True
    elif is_('mdpo-disable'):
        want['disable'] = True
    elif is_('mdpo-enable'):
        want['disable'] = False
    elif is_('mdpo-enable-next-block', 'mdpo-enable-next-line'):
        want['enable_next_block'] = True
    elif is_('mdpo-context'):
        cm = I.force(comment)
        if cm is not None and h.truth(lib.truth_term(I, cm)):
            want['current_msgctxt'] = cm
    for k in before:
        h.check(f'{k} after the command of the target', h.eq(o.fields[k], want[k]))


def constructor(cls):
    """The aliases of a tool are the normalized ones."""
    def f(h):
        I = h.I
        m = h.fresh(('map', 'str', 'str'), 'given')
        norm = h.fresh(('map', 'str', 'str'), 'normalized')
        calls = []

        def c(I, v):
            calls.append(True)
            h.check('the given aliases are normalized', h.eq(v['command_aliases'], m))
            return norm
        I.contracts[C + 'normalize_mdpo_command_aliases'] = c
        stub_inputs(h)
        o = h.call(cls, 'x', command_aliases=m)
        h.check('the aliases of the tool are the normalized ones', h.eq(o.fields['command_aliases'], norm))
    return Task(f'{cls.split(".")[1]} aliases given', f, functions=(cls + '.__init__',))


TASKS = [Task('normal form', normalize, functions=(C + 'normalize_mdpo_command',)),
         Task('valid names', names, functions=(C + 'get_valid_mdpo_command_names',)),
         Task('aliases', aliases, functions=(C + 'normalize_mdpo_command_aliases',)),
         process('mdpo.md2po.Md2Po'), process('mdpo.po2md.Po2Md'),
         Task('command of a comment', command_text, functions=(C + 'parse_mdpo_html_command',)),
         Task('mdpo2html commands', html, functions=('mdpo.mdpo2html.MdPo2HTML.handle_comment',)),
         constructor('mdpo.md2po.Md2Po'), constructor('mdpo.po2md.Po2Md'), constructor('mdpo.mdpo2html.MdPo2HTML')]
TRUSTED = ['the regular expression that finds commands in comments (parse_mdpo_html_command) gives one'
           ' command and one text per comment']
