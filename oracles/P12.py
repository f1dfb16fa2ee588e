"""P12: custom event handlers."""
import copy

import md4c
import polib
from common import *
from mdpo.event import debug_events, parse_events_kwarg, raise_skip_event
from mdpo.md2po import Md2Po, markdown_to_pofile
from mdpo.po2md import Po2Md, pofile_to_markdown

RULE = 'a case is non trivial if it calls several handlers'

RESULTS = [None, True, 0, 0.0, '', [], (), {}, 'False', 1, -1, NotImplemented, float('nan')]
PARSED = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text')
EVENTS = PARSED + ('command', 'msgid', 'link_reference')


class Result:
    """Falsy result."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return other is False or other == 0


def result(j):
    return Result() if j == len(RESULTS) else RESULTS[j]


def same_args(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


# ---------------------------------------------------------------------------- documents

PIECES = [
    'A *paragraph* with **bold** text', '# Heading `code`', '- item one\n- item *two*', '1. first\n2. second',
    '> quoted *text*\n> more', 'a [link](http://x.y "title") and ![image](i.png)', 'see [ref][target] end',
    '```python\ncode = 1\n```', '    indented', '| a | b |\n| --- | :-: |\n| c | *d* |', '<div>\nhtml\n</div>',
    'line one\nline two', '~~strike~~ and $math$ and [[wiki]]', '- [ ] task\n- [x] done', '***', 'a  \nhard break',
    '> - nested\n>   1. list', 'text &amp; entity', '![alt *em*][target]', 'last ``co`de``']
COMMANDS = [['mdpo-disable-next-line', None], ['mdpo-context', 'some context'], ['mdpo-translator', 'A comment'],
            ['mdpo-disable', None], ['mdpo-enable', None], ['mdpo-include-codeblock', None],
            ['mdpo-include', 'Included text'], ['mdpo-enable-next-block', None], ['mdpo-disable-next-block', None]]
ALIASES = {'skip-it': 'mdpo-disable-next-block', 'note': 'translator'}
ALIASED = [['skip-it', None], ['note', 'By an alias']]
RESOLVED = {'skip-it': 'mdpo-disable-next-block', 'note': 'mdpo-translator'}


def document(case):
    out = []
    for p in case['doc']:
        if isinstance(p, list):
            out.append(f'<!-- {p[0]}{" " + p[1] if p[1] else ""} -->')
        else:
            out.append(p)
    refs = '\n\n[target]: http://target.x "Ref title"\n[other]: http://other.y\n' if case.get('refs') else '\n'
    return '\n\n'.join(out) + refs


def commands(case):
    return [(RESOLVED.get(p[0], p[0]), p[1], p[0]) for p in case['doc'] if isinstance(p, list)]


def parsed(doc, extensions):
    """Events of the document, given by the parser alone."""
    out = []
    rec = lambda n: lambda *a: out.append((n, copy.deepcopy(a)))
    md4c.GenericParser(0, **dict.fromkeys(extensions, True)).parse(doc, *[rec(n) for n in PARSED])
    return out


class Tool:
    def __init__(self, case, events=None):
        self.case, self.doc = case, document(case)
        kw = {} if events is None else {'events': events}
        if case.get('debug'):
            kw['debug'] = True
        if case['tool'] == 'md2po':
            if case.get('plaintext'):
                kw['plaintext'] = True
            self.tool = Md2Po(self.doc, command_aliases=ALIASES, **kw)
        else:
            po = polib.POFile()
            for m, c in TRANSLATIONS:
                po.append(polib.POEntry(msgid=m, msgstr='T ' + m, msgctxt=c))
            po.save('t.po')
            self.tool = Po2Md(['t.po'], command_aliases=ALIASES, **kw)

    def run(self):
        with capture() as (out, err):
            if self.case['tool'] == 'md2po':
                r = str(self.tool.extract())
            else:
                r = self.tool.translate(self.doc)
        return r, out.getvalue()

    def entries(self, name):
        return [(e.msgctxt, e.msgid, e.msgstr, e.tcomment or e.comment, tuple(e.flags)) for e in getattr(self.tool, name, [])]


TRANSLATIONS = [('A *paragraph* with **bold** text', None), ('item one', None), ('first', None),
                ('A *paragraph* with **bold** text', 'some context'), ('Heading `code`', None), ('second', None),
                ('[other]: http://other.y', None), ('item *two*', 'some context')]


def state(tool):
    """Comparable copy of the attributes of a tool."""
    out = {}
    names = set(getattr(tool, '__dict__', ()))
    for c in type(tool).__mro__:
        x = getattr(c, '__slots__', ())
        names.update([x] if isinstance(x, str) else x)
    for k in names:
        v = getattr(tool, k, None)
        if k == 'events' or callable(v):
            continue
        out[k] = val(v)
    return out


def val(v):
    if isinstance(v, polib.POEntry):
        return (v.msgid, v.msgstr, v.msgctxt, v.tcomment, tuple(v.flags), v.obsolete)
    if isinstance(v, polib.POFile):
        return str(v)
    if isinstance(v, (list, tuple)):
        return [val(x) for x in v]
    if isinstance(v, dict):
        return {str(k): val(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted(map(str, v))
    return v if isinstance(v, (str, int, float, bool, type(None))) else repr(v)


# ---------------------------------------------------------------------------- cases

def run_raise(case):
    calls = []

    def handler(i, j):
        def f(*a):
            calls.append((i, a))
            return False if j == -1 else result(j)
        return f
    args = tuple(object() for _ in range(case['args']))
    hs = [handler(i, j) for i, j in enumerate(case['results'])]
    events = {'other': [handler('other', -1)], 'event': hs}
    for _ in range(2):
        calls.clear()
        r = raise_skip_event(events, 'event', *args)
        equal([c[0] for c in calls], list(range(len(hs))), 'handlers called')
        expect(all(same_args(c[1], args) for c in calls), 'arguments of the handlers')
        equal(bool(r), -1 in case['results'], 'the step is skipped')
    calls.clear()
    expect(not raise_skip_event({'event': hs}, 'none', *args) and not raise_skip_event({}, 'event', *args),
           'events without handlers do not skip')
    equal(calls, [], 'handlers called')
    given = parse_events_kwarg({'a': hs, 'b': hs[0]} if hs else {'a': hs})
    expect(list(given['a']) == hs and (not hs or list(given['b']) == [hs[0]]), 'the handlers given are the ones used')


def run_watch(case):
    """Handlers that do not return False change nothing."""
    with scratch():
        plain = Tool(dict(case, debug=False))
        want, _ = plain.run()
        log = []
        events = {}

        def handler(ev, i, j):
            def f(*a):
                log.append((ev, i, a[0], copy.deepcopy(a[1:])))
                return result(j)
            return f
        for ev, js in case['results'].items():
            hs = [handler(ev, i, j) for i, j in enumerate(js)]
            events[ev] = hs[0] if len(hs) == 1 and case.get('alone') else hs
        t = Tool(case, events)
        got, out = t.run()
        equal(got, want, 'output with handlers that do not return False')
        for a in ('found_entries', 'disabled_entries', 'translated_entries'):
            equal(t.entries(a), plain.entries(a), a)
        expect(all(e[2] is t.tool for e in log), 'the first argument is the tool')
        count = {ev: len(js) for ev, js in case['results'].items()}
        seq = [(ev, a) for ev, a in parsed(t.doc, t.tool.extensions) if count.get(ev)]
        wanted = [(ev, i, a) for ev, a in seq for i in range(count[ev])]
        equal([(ev, i, a) for ev, i, _, a in log if ev in PARSED], wanted, 'calls for blocks, spans and texts')
        n = count.get('command', 0)
        equal([(i, a) for ev, i, _, a in log if ev == 'command'],
              [(i, c) for c in commands(case) for i in range(n)], 'calls for commands')
        n = count.get('msgid', 0)
        msgids = [(i, a) for ev, i, _, a in log if ev == 'msgid']
        if n:
            equal([i for i, _ in msgids], list(range(n)) * (len(msgids) // n), 'calls for messages')
            msgs = [a for i, a in msgids if i == 0 and a[0]]
            saved = t.entries('found_entries' if case['tool'] == 'md2po' else 'translated_entries')
            off = t.entries('disabled_entries')
            for e in saved + off:
                expect(any(a[0] == e[1] and (a[2] or None) == (e[0] or None) and (a[3] or '') == (e[3] or '') for a in msgs)
                       or e[1].startswith('[') and case['tool'] == 'po2md' or case.get('plaintext') and 'itle' in e[1],
                       f'the message {e} was given to its handlers', msgs)
            if case['tool'] == 'md2po' and not case.get('plaintext'):
                equal(len(msgs), len(saved) + len(off), 'messages given to their handlers')
            elif case['tool'] == 'po2md':
                expect(all(a[1] is None and a[4] == [] for a in msgs), 'arguments of messages of the translator')
        n = count.get('link_reference', 0)
        linked = case.get('refs') and any(x in t.doc for x in ('[link](', '![', '[ref]', '[['))
        refs = [('target', 'http://target.x', 'Ref title'), ('other', 'http://other.y', None)]
        got = [(i, (a[0], a[1], a[2] or None)) for ev, i, _, a in log if ev == 'link_reference']
        if n and '[link](' in t.doc and case.get('refs') and not case.get('plaintext'):
            equal(got, [(i, r) for r in refs for i in range(n)], 'calls for definitions')
        elif not linked:
            equal(got, [], 'calls for definitions')
        if case.get('debug'):
            lines = [l for l in out.splitlines() if '[DEBUG]::' in l]
            for ev in PARSED:
                equal(sum(f'::{ev}::' in l for l in lines),
                      sum(x == ev for x, _ in parsed(t.doc, t.tool.extensions)), f'debugging lines of {ev}')


def run_skip(case):
    """The handler in some place returns False in the k-th call for the event."""
    with scratch():
        box = dict(n=0, before=None, last=None, order=[])
        ev, k, place = case['event'], case['k'], case['place']

        def watch(name):
            def f(tool, *a):
                if box['before'] is not None:
                    box['last'] = state(tool)
                    want, box['before'] = box['before'], None
                    got = box['last']
                    diff = {x: (got.get(x), want.get(x)) for x in set(got) | set(want) if got.get(x) != want.get(x)}
                    expect(not diff, f'the skipped {ev} changed the tool (got, want)', diff)
            return f

        def handler(i):
            def f(tool, *a):
                if i == 0:
                    box['n'] += 1
                if box['n'] == k + 1:
                    box['order'].append(i)
                    if i == 2:
                        box['before'] = state(tool)
                    if i == place:
                        return False
                return None
            return f
        events = {e: [watch(e)] for e in PARSED}
        events[ev] = events.get(ev, []) + [handler(i) for i in range(3)]
        t = Tool(case, events)
        try:
            t.run()
        except Bad:
            raise
        except Exception:
            if box['n'] <= k or ev == 'text':
                raise
            # an unbalanced sequence of steps may not be understood
        if box['n'] > k:
            equal(box['order'], [0, 1, 2], 'handlers called for the skipped step')


def run_messages(case):
    """Skipped messages, commands and definitions have no effect."""
    with scratch():
        ev = case['event']
        base = Tool(dict(case))
        base.run()
        if ev == 'command':
            t = Tool(case, {'command': [lambda *a: None, lambda *a: False]})
            r, _ = t.run()
            plain = Tool(dict(case, doc=[p for p in case['doc'] if isinstance(p, str)]))
            plain.run()
            for a in ('found_entries', 'disabled_entries', 'translated_entries'):
                equal([e for e in t.entries(a)], plain.entries(a), f'{a} with all the commands skipped')
        elif ev == 'link_reference':
            t = Tool(case, {ev: [lambda tool, target, href, title: target != 'other', lambda *a: None]})
            r, _ = t.run()
            linked = '[link](' in t.doc and case.get('refs')
            expect('http://other.y' not in r, 'a skipped definition is not written', r)
            if linked:
                expect('http://target.x' in r, 'the other definition is written', r)
            names = 'found_entries' if case['tool'] == 'md2po' else 'translated_entries'
            equal(t.entries(names), [e for e in base.entries(names) if 'other.y' not in e[1]], names)
        else:
            names = ('found_entries' if case['tool'] == 'md2po' else 'translated_entries', 'disabled_entries')
            every = [e[1] for n in names for e in base.entries(n)]
            if not every:
                return
            victim = every[case['k'] % len(every)]
            if case['tool'] == 'po2md' and victim.startswith('['):
                return

            def f(tool, msgid, *a):
                if msgid == victim:
                    tool.current_msgid = ''
                    tool.current_msgctxt = tool.current_tcomment = None
                    tool.disable_next_block = tool.enable_next_block = False
                    return False
            t = Tool(case, {'msgid': [f, lambda *a: None]})
            r, _ = t.run()
            for n in names:
                equal(t.entries(n), [e for e in base.entries(n) if e[1] != victim], f'{n} without {victim!r}')


def run_file(case):
    """Handlers given as a path and a function."""
    with scratch():
        name = case['name']
        write(name, 'calls = []\n\ndef handler(tool, block, text):\n    calls.append(text)\n'
              f'    return {case["result"]}\n\nclass Owner:\n    @staticmethod\n    def handler(tool, block, text):\n'
              f'        calls.append(text)\n        return {case["result"]}\n')
        t = Tool(case, {'text': name + '::' + case['function']})
        r, _ = t.run()
        import sys
        mods = [m for n, m in sys.modules.items() if n == os.path.splitext(name)[0].replace(os.sep, '.')]
        texts = [a[1] for ev, a in parsed(t.doc, t.tool.extensions) if ev == 'text']
        equal(mods[0].calls, texts, 'texts given to the handler')
        for m in [n for n in sys.modules if n == os.path.splitext(name)[0].replace(os.sep, '.')]:
            del sys.modules[m]
        if case['result'] != 'False':
            equal(r, Tool(dict(case)).run()[0], 'output')
        else:
            ids = [e[1] for e in t.entries('found_entries')]
            expect(not any('paragraph' in i for i in ids) and 'paragraph' not in r, 'skipped texts are not used', r)


def run(case):
    dict(raise_=run_raise, watch=run_watch, skip=run_skip, messages=run_messages, file=run_file)[case['kind']](case)


FULL = PIECES[:7] + [['mdpo-context', 'some context']] + PIECES[:1] + [['mdpo-disable-next-line', None], PIECES[2]] + \
    PIECES[7:12] + [['note', 'By an alias'], PIECES[1], ['skip-it', None], PIECES[3]] + PIECES[12:]
R = len(RESULTS)
CORPUS = [
    *[dict(kind='raise_', results=r, args=n) for n in (0, 1, 3) for r in
      ([], [-1], [0], [2], [R], [-1, 0], [0, -1], [-1, -1], [0, -1, 1], [-1, 1, 0], [1, 0, -1], list(range(R + 1)))],
    *[dict(kind='watch', tool=t, doc=FULL, refs=True, results={e: [j, 0] for e in EVENTS}, **kw)
      for t in ('md2po', 'po2md') for j in (0, 1, 2, 4, R) for kw in ({}, {'debug': True})],
    *[dict(kind='watch', tool=t, doc=FULL, refs=True, results={e: [0]}, alone=True)
      for t in ('md2po', 'po2md') for e in EVENTS],
    dict(kind='watch', tool='md2po', doc=FULL, refs=True, plaintext=True, results={e: [0, 2] for e in EVENTS}),
    *[dict(kind='skip', tool=t, doc=FULL, refs=True, event=e, k=k, place=p)
      for t in ('md2po', 'po2md') for e in PARSED for k in (0, 1, 2, 5, 9, 14, 20, 31, 44) for p in (0, 1, 2)],
    *[dict(kind='messages', tool=t, doc=FULL, refs=True, event=e, k=k)
      for t in ('md2po', 'po2md') for e, n in (('msgid', 25), ('command', 1), ('link_reference', 1)) for k in range(n)],
    *[dict(kind='file', tool=t, doc=FULL, refs=True, name=f'handlers_{i}.py', function=f, result=r)
      for i, (t, f, r) in enumerate([(t, f, r) for t in ('md2po', 'po2md') for f in ('handler', 'Owner.handler')
                                     for r in ('None', 'False', '0')])],
]


def gen(rng, k):
    if rng.random() < .15:
        return dict(kind='raise_', args=rng.randint(0, 6),
                    results=[rng.choice([-1, rng.randint(0, R)]) for _ in range(rng.randint(0, 6))])
    doc = []
    for _ in range(rng.randint(1, 9)):
        doc.append(rng.choice(PIECES))
        if rng.random() < .3:
            doc.append(rng.choice(COMMANDS + ALIASED))
            doc.append(rng.choice(PIECES[:4]))
    base = dict(tool=rng.choice(['md2po', 'po2md']), doc=doc, refs=rng.random() < .6)
    if rng.random() < .1:
        base['plaintext'] = True
    x = rng.random()
    if x < .35:
        return dict(base, kind='watch', debug=rng.random() < .2, alone=rng.random() < .5,
                    results={e: [rng.randint(0, R) for _ in range(rng.randint(1, 3))] for e in EVENTS
                             if rng.random() < .7})
    if x < .75:
        return dict(base, kind='skip', event=rng.choice(PARSED), k=rng.randint(0, 20), place=rng.randint(0, 2))
    base.pop('plaintext', None)
    return dict(base, kind='messages', event=rng.choice(['msgid', 'msgid', 'command', 'link_reference']),
                k=rng.randint(0, 20))


if __name__ == '__main__':
    main(CORPUS, gen, run, RULE, nontrivial=lambda c: c['kind'] != 'file')
