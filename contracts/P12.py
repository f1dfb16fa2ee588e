"""P12: a custom event handler that returns False skips exactly its step."""
from contracts.state import *
from contracts.messages import command_contract

EV = 'mdpo.event.'
HANDLER = ('opaque', 'handler')


def other(I):
    """Any result that is not exactly False."""
    r = I.ctx.fresh(('opaque', 'any'), 'result')
    I.ctx.assume(z3.Not(lib.is_term(I, r, False)))
    return r


class Handlers:
    """Lists of unknown handlers: every call is recorded, its result depends on its place."""

    def __init__(self, h, args):
        self.h, I = h, h.I
        self.log = VObj(I.ctx, NativeClass('log'), {'calls': VList(I.ctx, [], T=HANDLER), 'n': 0})
        self.is_false = z3.Function('handler call returns False', z3.IntSort(), z3.BoolSort())

        def call(I, f, a, k):
            h.check('the handlers are called with the documented arguments', z3.And(
                [z3.BoolVal(len(a) == len(args) and not k)] + [same_value(h, frozen(x), frozen(y))
                                                               for x, y in zip(a, args)]))
            n = I.force(self.log.fields['n'])
            lib.list_append(I, self.log.fields['calls'], f)
            e = core.enc(I.ctx, n, 'int')
            I.setattr(self.log, 'n', SV('int', z3.simplify(e + 1)))
            b = self.is_false(e)
            return Choice([(b, False), (z3.Not(b), other(I))])
        I.env['call:' + str(HANDLER)] = call

    def fold(self, lst):
        I = self.h.I
        return self.h.fold('handlers', lst, [('calls', ('list', HANDLER)), ('n', 'int'), ('skip', 'bool')],
                           (VList(I.ctx, [], T=HANDLER), 0, False), lambda I, st, x, i: (
            append(I, st[0], x), SV('int', core.enc(I.ctx, st[1], 'int') + 1),
            SV('bool', z3.Or(core.enc(I.ctx, st[2], 'bool'), self.is_false(core.enc(I.ctx, st[1], 'int'))))))


def raising(n):
    """raise_skip_event with any number of handlers and n arguments."""
    def f(h):
        I = h.I
        args = tuple(h.fresh(('opaque', 'any'), f'arg{j}') for j in range(n))
        hs = Handlers(h, args)
        lst = h.fresh(('list', HANDLER), 'handlers')
        other = h.fresh(('list', HANDLER), 'others')
        fold = hs.fold(lst)
        r = h.call(EV + 'raise_skip_event', VDict(I.ctx, {'other': other, 'event': lst}), 'event', *args)
        calls, m, skip = fold.total()
        h.check('all the handlers of the event are called once each, in order', h.eq(hs.log.fields['calls'], calls))
        h.check('the step is skipped iff some handler returned exactly False', h.term(r) == h.term(skip))
    return Task(f'handlers of an event with {n} arguments', f, functions=(EV + 'raise_skip_event',))


def no_handlers(h):
    I = h.I
    hs = Handlers(h, ())
    other = h.fresh(('list', HANDLER), 'others')
    for events in (VDict(I.ctx, {}), VDict(I.ctx, {'other': other})):
        r = h.call(EV + 'raise_skip_event', events, 'event', h.fresh(('opaque', 'any'), 'arg'))
        h.check('the step is not skipped', z3.Not(h.term(r)))
    calls = hs.log.fields['calls']
    h.check('no handler is called', calls.concrete and not calls.get())


EVENTS = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text', 'command', 'msgid', 'link_reference')


def given(h):
    """The events of a tool are the given ones: functions, lists of functions."""
    I = h.I
    one = h.fresh(HANDLER, 'one')
    many = h.fresh(('list', HANDLER), 'many')
    same = h.fold('same', many, [('all', ('list', HANDLER))], (VList(I.ctx, [], T=HANDLER),),
                  lambda I, st, x, i: (append(I, st[0], x),))
    I.ctx.assume(core.enc(I.ctx, same.total()[0], ('list', HANDLER)) == many.get().e)
    r = h.call(EV + 'parse_events_kwarg', VDict(I.ctx, {'text': one, 'msgid': many}))
    h.check('the events given', isinstance(r, VDict) and r.concrete and set(r.get()) == {'text', 'msgid'})
    h.check('a function alone', h.eq(lib.getitem(I, r, 'text'), VList(I.ctx, [one], T=HANDLER)))
    h.check('all the functions of a list, in order', h.eq(lib.getitem(I, r, 'msgid'), many))


def constructed(cls):
    """The handlers of a tool, with the ones of the debug mode after them."""
    def f(h):
        I = h.I
        evs = {n: VList(I.ctx, [h.fresh(HANDLER, n)]) for n in EVENTS if n != 'text'}
        first = {n: v.get()[0] for n, v in evs.items()}
        I.contracts[EV + 'parse_events_kwarg'] = lambda I, v: VDict(I.ctx, dict(evs))
        debug = I.truth(h.fresh('bool', 'debug'))
        tool = new_tool(h, cls, events=h.fresh(('opaque', 'any'), 'events'), debug=debug)
        got = tool.fields['events']
        h.check('the events of the tool', isinstance(got, VDict) and got.concrete and
                set(got.get()) == (set(EVENTS) if debug else set(evs)))
        for n in EVENTS:
            if n in got.get():
                l = got.get()[n].get()
                h.check(f'number of handlers of {n}', len(l) == (n != 'text') + debug)
                if n != 'text':
                    h.check(f'the given handler of {n} is first', l[0] is first[n])
    return Task(f'{cls.split(".")[1]} handlers', f, functions=(cls + '.__init__',))


def debug(h):
    """The handlers of the debug mode do not skip any step."""
    I = h.I
    fs = h.call(EV + 'debug_events', 'tool')
    md = md4c(h)
    x = lambda n: h.fresh('str', n)
    o = lambda n: h.fresh(('opt', 'str'), n)
    self = h.fresh(('opaque', 'any'), 'self')
    dt = VDict(I.ctx, {'a': h.fresh('int', 'a')}) if I.truth(h.fresh('bool', 'some')) else VDict(I.ctx, {})
    args = {'msgid': (x('msgid'), o('msgstr'), o('msgctxt'), o('tcomment'), h.fresh(('list', 'str'), 'flags')),
            'command': (x('command'), o('comment'), x('original')), 'text': (md.TextType.NORMAL, x('text')),
            'link_reference': (x('target'), x('href'), o('title')), 'enter_block': (md.BlockType.P, dt),
            'leave_block': (md.BlockType.P, dt), 'enter_span': (md.SpanType.A, dt), 'leave_span': (md.SpanType.A, dt)}
    h.check('one handler for each event', set(fs.get()) == set(EVENTS))
    n = choose(h, 'event', EVENTS)
    r = I.force(h.call(fs.get()[n], self, *args[n]))
    h.check(f'the handler of {n} does not return False', r is not False)


# ---------------------------------------------------------------------------- steps of the tools

def prepared(h, cls):
    """Two tools, for the same inputs; the functions that they call give the same results to both."""
    I = h.I
    attribute_contract(I)
    calls = []

    def save(I, v):
        calls.append(('save', [v[k] for k in ('msgid', 'msgstr', 'tcomment', 'msgctxt', 'fuzzy')]))

    def translate(I, v):
        calls.append(('translate', [v[k] for k in ('msgid', 'msgctxt', 'tcomment')]))
        return lib.uf(I, 'translation', [v['msgid'], v['msgctxt']], 'str')
    I.contracts[MD2PO + '._save_msgid'] = save
    I.contracts[PO2MD + '._translate_msgid'] = translate
    I.contracts['mdpo.md.parse_link_references'] = lambda I, v: lib.uf(
        I, 'link references', [v['content']], ('list', ('tuple', 'str', 'str', ('opt', 'str'))))
    I.contracts['mdpo.text.min_not_max_chars_in_a_row'] = lambda I, v: lib.uf(
        I, 'shortest delimiter', [v['char'], v['text']], 'int')

    I.contracts['mdpo.command.parse_mdpo_html_command'] = command_contract
    return calls


SKIP_LISTS = ('disabled_entries', 'found_entries', 'translated_entries', 'events')


class Spied:
    """Events of a tool with a handler for one event: uses other than raise_skip_event are noted."""

    def __init__(self, I, event):
        self.used = False

        def use(f):
            def g(I, o, *a):
                self.used = True
                return f(I.force(a[0]) if a else None, *a[1:])
            return g
        one = VList(I.ctx, [core.Native(lambda I, a, k: None, 'handler')])
        self.obj = VObj(I.ctx, NativeClass('events', {
            '__contains__': use(lambda n: n == event), '__bool__': use(lambda n: z3.BoolVal(True)),
            '__len__': use(lambda n: 1), 'get': use(lambda n, d=None: one if n == event else d),
            '__getitem__': use(lambda n: one)}), {})


def step(cls, event, run, documented, only=None):
    """One step from any state.

    run(h, tool, args): calls the step; documented(h, tool, args): arguments for its handlers.
    The handlers are those of the contract of raise_skip_event: they do anything to the tool.
    """
    def f(h):
        I = h.I
        calls = prepared(h, cls)
        tool = new_tool(h, cls)
        tool.fields['command_aliases'] = h.fresh(('map', 'str', 'str'), 'aliases')
        havoc(h, tool, cls, keep=SKIP_LISTS[:3])
        args = only(h) if only else ()
        skip = h.fresh('bool', 'skip')
        box = {'n': 0}
        spied = Spied(I, event)
        tool.fields['events'] = spied.obj
        before = snapshot(tool)

        def raised(I, v):
            name = I.force(v['event_name'])
            h.check('the events of the tool are used', v['events'] is spied.obj)
            if name != event or box['n']:
                return False
            box['n'] = 1
            a = lib.to_list(I, v['event_args']).get()
            want = documented(h, tool, args)
            h.check('the handler gets the documented arguments', z3.And([z3.BoolVal(len(a) == len(want))] + [
                same_value(h, frozen(x), frozen(y)) for x, y in zip(a, want)]))
            check_same(h, 'the handler is called before the step', tool, before)
            havoc(h, tool, cls, keep=SKIP_LISTS[:3])
            box['after'] = snapshot(tool)
            box['calls'] = len(calls)
            if I.truth(skip):
                return True
            if not spied.used and only_passed(h, cls, 'events', 'raise_skip_event', event):
                raise Done()      # the rest of the step does not depend on the events
            return False
        I.contracts[EV + 'raise_skip_event'] = raised
        st, r = attempt(h, run, tool, args)
        h.check('the handler is called', box['n'] == 1)
        if not box['n'] or st == 'done':
            return
        if I.truth(skip):
            h.check('a skipped step ends without errors', st == 'ok')
            check_same(h, 'a skipped step leaves the state of the handlers', tool, box['after'])
            h.check('a skipped step does nothing else', len(calls) == box['calls'])
            return
        if not spied.used:
            return
        plain = new_tool(h, cls)
        for k, v in box['after'].items():
            if k not in SKIP_LISTS:
                plain.fields[k] = thaw(h, v)
        plain.fields['events'] = VDict(I.ctx, {})
        I.contracts[EV + 'raise_skip_event'] = lambda I, v: False
        done = calls[box['calls']:]
        n = len(calls)
        st2, r2 = attempt(h, run, plain, args)
        h.check('ends as without handlers', st == st2 and (st == 'ok' or r.cls is r2.cls))
        check_same(h, 'goes on as if there were no handlers', tool, snapshot(plain), skip=SKIP_LISTS)
        for k in SKIP_LISTS[:3]:
            if k in tool.fields:
                h.check(f'as many {k} as without handlers', len(tool.fields[k].get()) == len(plain.fields[k].get()))
        again = calls[n:]
        h.check('the same messages as without handlers', len(done) == len(again) and all(
            a[0] == b[0] for a, b in zip(done, again)))
        for a, b in zip(done, again):
            for x, y in zip(a[1], b[1]):
                h.check('the same message as without handlers', h.eq(x, y))
    return Task(f'{cls.split(".")[1]} {event}', f, functions=(cls + '.' + event,))


def attempt(h, run, tool, args):
    try:
        return 'ok', run(h, tool, args)
    except core.PyRaise as e:
        return 'raise', e.exc
    except Done:
        return 'done', None


def some_block(h):
    b = choose(h, 'block', blocks())
    return (b, block_details(h, b))


def some_span(h):
    b = choose(h, 'span', spans())
    return (b, span_details(h, b))


def steps(cls):
    md = cls == MD2PO
    sp = 'not_plaintext_' if md else ''
    m = lambda name: lambda h, tool, args: h.method(tool, name, *args)
    me = lambda h, tool, args: (tool,) + tuple(args)
    out = [step(cls, 'enter_block', m('enter_block'), me, some_block),
           step(cls, 'leave_block', m('leave_block'), me, some_block),
           step(cls, 'enter_span', m(sp + 'enter_span'), me, some_span),
           step(cls, 'leave_span', m(sp + 'leave_span'), me, some_span),
           step(cls, 'text', m('text'), me, lambda h: (md4c(h).TextType.NORMAL, h.fresh('str', 'text'))),
           step(cls, 'command', m('command'), me, lambda h: (h.fresh('str', 'command'), h.fresh(('opt', 'str'), 'comment'),
                                                            h.fresh('str', 'original')))]
    if md:
        out.append(step(cls, 'msgid', m('_save_current_msgid'), lambda h, tool, a: (
            tool, tool.fields['current_msgid'], a[0], tool.fields['current_msgctxt'], tool.fields['current_tcomment'],
            VList(h.ctx, ['fuzzy'] if h.truth(a[1]) else [])), lambda h: (h.fresh('str', 'msgstr'), h.fresh('bool', 'fuzzy'))))
    else:
        out.append(step(cls, 'msgid', m('_save_current_msgid'), lambda h, tool, a: (
            tool, tool.fields['current_msgid'], None, tool.fields['current_msgctxt'], tool.fields['current_tcomment'],
            VList(h.ctx, []))))
    return out


def plaintext_steps():
    m = lambda name: lambda h, tool, args: h.method(tool, name, *args)
    me = lambda h, tool, args: (tool,) + tuple(args)
    a = step(MD2PO, 'enter_span', m('enter_span'), me, some_span)
    b = step(MD2PO, 'leave_span', m('leave_span'), me, some_span)
    a.name, b.name = a.name + ' (plain text)', b.name + ' (plain text)'
    return [a, b]


def link_references(cls):
    """Every definition, with any number of handlers."""
    def f(h):
        I = h.I
        calls = prepared(h, cls)
        tool = new_tool(h, cls)
        t, href, title = h.fresh('str', 'target'), h.fresh('str', 'href'), h.fresh(('opt', 'str'), 'title')
        lst = h.fresh(('list', HANDLER), 'handlers')
        h.assume(z3.Length(lst.get().e) > 0)
        hs = Handlers(h, (tool, t, href, title))
        fold = hs.fold(lst)
        tool.fields['events'] = VDict(I.ctx, {'link_reference': lst})
        tool.fields['link_references'] = VList(I.ctx, [(t, href, title)])
        tool.fields['translations'] = h.fresh(('map', 'str', 'str'), 'translations')
        h.method(tool, '_dump_link_references' if cls == MD2PO else '_append_link_references')
        cs, m, skip = fold.total()
        h.check('all the handlers of the event are called once each, in order', h.eq(hs.log.fields['calls'], cs))
        h.check('the definition is skipped iff some handler returned exactly False',
                z3.BoolVal(len(calls) == 0) == h.term(skip))
        h.check('the definition is used at most once', len(calls) <= 1)
    return Task(f'{cls.split(".")[1]} link_reference', f)


TASKS = [raising(n) for n in (3, 4, 6)] + [
    Task('events without handlers', no_handlers, functions=(EV + 'raise_skip_event',)),
    Task('events given', given, functions=(EV + 'parse_events_kwarg',)),
    constructed(MD2PO), constructed(PO2MD), Task('debug handlers', debug, functions=(EV + 'debug_events',))] + \
    steps(MD2PO) + steps(PO2MD) + plaintext_steps() + [link_references(MD2PO), link_references(PO2MD)]
TRUSTED = ['handlers given as path::function are imported by importlib (trusted)']
