"""P18: link reference definitions against the definitions written in generated documents."""
from common import *
from mdpo.md2po import Md2Po
from mdpo.po2md import Po2Md

QUOTES = {'"': '"', "'": "'", '(': ')'}


def render(doc):
    out = []
    for p in doc:
        k = p[0]
        if k == 'p':
            out.append(p[1])
        elif k == 'link':
            out.append(f'{p[1]} ' + {'inline': f'[{p[1]}](x{p[1]})', 'img': f'![{p[1]}](y)', 'ref': f'[{p[1]}][{p[3]}]',
                                     'auto': '<https://a.b>', 'title': f'[{p[1]}](x "t")'}[p[2]])
        elif k == 'cmd':
            out.append(f'<!-- mdpo-{p[1]} -->')
        elif k == 'defs':
            ls = []
            for t, href, title, q, angle, indent in p[1]:
                h = f'<{href}>' if angle else href
                ls.append(' ' * indent + f'[{t}]: {h}' + (f' {q}{title}{QUOTES[q]}' if title else ''))
            out.append('\n'.join(ls))
    return '\n\n'.join(out) + '\n'


def definitions(doc):
    if not any(p[0] == 'link' for p in doc):
        return []
    return [(d[0], d[1], d[2]) for p in doc if p[0] == 'defs' for d in p[1]]


def message(t, href, title):
    return f'[{t}]: {href}' + (f' "{title}"' if title else '')


def handlers(skips, log):
    """A list of handlers: each one skips some targets."""
    def make(ts):
        def f(self, target, href, title):
            log.append((target, href, title))
            return False if target in ts else None if len(target) % 2 else True
        return f
    return {'link_reference': [make(ts) for ts in skips]} if skips is not None else {}


def run(case):
    with scratch():
        docs = case['docs']
        skipped = {t for ts in case['skips'] or [] for t in ts}
        texts = [render(d) for d in docs]
        names = []
        for i, t in enumerate(texts):
            write(f'{i}.md', t)
            names.append(f'{i}.md')
        want = [[message(*d) for d in definitions(doc) if d[0] not in skipped] for doc in docs]
        log = []
        m = Md2Po(names, events=handlers(case['skips'], log))
        m.extract()
        got = [e for e in m.found_entries if e.msgid.startswith('[')]
        equal([e.msgid for e in got], [x for w in want for x in w], 'definitions stored')
        for e in got:
            expect(e.msgstr == e.msgid and e.fuzzy, 'with itself as fuzzy translation', e.msgid, e.msgstr, e.flags)
        equal([e.msgid for e in m.pofile if e.msgid.startswith('[')], list(dict.fromkeys(x for w in want for x in w)),
              'definitions in the PO file')
        equal([e.msgid for e in m.disabled_entries if e.msgid.startswith('[')], [], 'definitions disabled')
        equal(log, [d for doc in docs for d in definitions(doc) for _ in case['skips'] or []], 'calls to handlers')
        c = Md2Po('\n' + texts[0], events=handlers(case['skips'], []))
        c.extract()
        equal([e.msgid for e in c.found_entries if e.msgid.startswith('[')], want[0], 'definitions of a content')

        translated = [x for w in want for x in w][::2] if case['translate'] else []
        write('t.po', '#\nmsgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n\n' + '\n\n'.join(
            'msgid "%s"\nmsgstr "[T]%s"' % ((w.replace('"', '\\"'),) * 2) for w in dict.fromkeys(translated)) + '\n')
        p = Po2Md(['t.po'], events=handlers(case['skips'], []))
        for i, doc in enumerate(docs):
            p.outputlines = []
            out = p.translate(f'{i}.md')
            seen, lines = set(), []
            for d in definitions(doc):
                if d[0] not in skipped and d[1:] not in seen:
                    seen.add(d[1:])
                    x = message(*d)
                    lines.append('[T]' + x if x in translated else x)
            got = [l for l in out.split('\n') if l.startswith('[')]
            equal(got, lines, f'definitions written for the document {i}')
            if lines:
                equal(out.rstrip('\n').split('\n')[-len(lines):], lines, 'the definitions end the document')


CMDS = ('disable', 'enable', 'disable-next-block', 'disable-next-line', 'enable-next-block')


def gen(rng, k):
    hrefs = ['u%d' % i for i in range(3)] + ['https://a.b/c?d=e#f']
    titles = [None, None, 'one', 'two words']
    ts = ['a', 'bb', 'c d', 'E', 'x_y', '1']

    def doc():
        n = 0
        d = []
        names = []
        for _ in range(rng.randrange(0, 4)):
            names.append([rng.choice(ts), rng.choice(hrefs), rng.choice(titles), rng.choice('"\'('), rng.random() < .2,
                          rng.choice([0, 0, 0, 1, 3])])
        for _ in range(rng.randrange(1, 6)):
            x = rng.random()
            n += 1
            if x < .3:
                d.append(['cmd', rng.choice(CMDS)])
            elif x < .6:
                d.append(['p', f'w{n}'])
            else:
                kind = rng.choice(['inline', 'img', 'auto', 'title'] + ['ref'] * 2 * bool(names))
                d.append(['link', f'w{n}', kind, rng.choice(names)[0] if names else 'none'])
        while names:
            j = rng.randrange(1, len(names) + 1)
            d.insert(rng.randrange(0, len(d) + 1), ['defs', names[:j]])
            names = names[j:]
        return d
    return dict(docs=[doc() for _ in range(rng.choice([1, 1, 2, 3]))], translate=rng.random() < .6,
                skips=rng.choice([None, None, [], [[]], [[rng.choice(ts)]], [[rng.choice(ts)], [rng.choice(ts)]],
                                  [[rng.choice(ts), rng.choice(ts)], []]]))


D = ['defs', [['a', 'u1', 'one', '"', False, 0], ['b', 'u1', 'one', "'", True, 1], ['c', 'u1', None, '"', False, 0],
              ['a', 'u2', 'one', '(', False, 3], ['d', 'u1', 'two', '"', False, 0]]]
CORPUS = [dict(docs=[[['cmd', c], ['link', 'w1', l, 'a'], D, ['cmd', c]], [['p', 'w2'], D], [D, ['cmd', c], ['link', 'w3', l, 'c']]],
               translate=t, skips=s) for c in CMDS for l in ('ref', 'img', 'inline') for t in (True, False)
          for s in (None, [['a']], [[], ['b', 'd']])]

if __name__ == '__main__':
    main(CORPUS, gen, run, 'documents with definitions, links, images and commands; definitions known by construction')
