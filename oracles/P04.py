"""P04: names, prefixes and aliases of commands."""
import warnings

from common import *
import mdpo.command as C
from mdpo.md2po import Md2Po
from mdpo.mdpo2html import MdPo2HTML
from mdpo.po2md import Po2Md

DOCUMENTED = ['context', 'disable', 'disable-next-block', 'disable-next-line', 'enable', 'enable-next-block',
              'enable-next-line', 'include', 'include-codeblock', 'include-codeblocks', 'disable-codeblock',
              'disable-codeblocks', 'translator']
PO = '#\nmsgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n\n' + \
    '\n\n'.join(f'msgid "{w}"\nmsgstr "T{w}"\n\nmsgctxt "some text"\nmsgid "{w}"\nmsgstr "C{w}"' for w in
                ('one', 'two', 'three', 'four')) + '\n'


def normal(v):
    n = v if v.startswith('mdpo-') else 'mdpo-' + v
    return n if n[5:] in DOCUMENTED else None


def entries(l):
    return [(e.msgid, e.msgctxt, e.comment, e.tcomment, e.msgstr, e.obsolete) for e in l]


def md(doc, aliases):
    try:
        m = Md2Po(doc, command_aliases=aliases, location=False)
        m.extract()
        a = entries(m.pofile), entries(m.disabled_entries)
    except ValueError:
        a = 'ValueError'
    p = Po2Md(['t.po'], command_aliases=aliases)
    out = p.translate(doc)
    return a, out, entries(p.disabled_entries), entries(p.translated_entries)


def htm(doc, aliases):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        h = MdPo2HTML(['t.po'], command_aliases=aliases)
        return h.translate(doc)


HTML_COMMANDS = ['disable', 'disable-next-block', 'disable-next-line', 'enable', 'enable-next-block',
                 'enable-next-line', 'context', 'include-codeblock']


def run(case):
    if case['kind'] == 'name':
        equal(C.normalize_mdpo_command(case['name']), normal(case['name']), f'normal form of {case["name"]!r}')
        return
    if case['kind'] == 'aliases':
        a = case['aliases']
        bad = [t for t in a.values() if normal(t) is None]
        for fn in (C.normalize_mdpo_command_aliases, lambda a: Md2Po('x', command_aliases=a).command_aliases,
                   lambda a: Po2Md([], command_aliases=a).command_aliases,
                   lambda a: MdPo2HTML([], command_aliases=a).command_aliases):
            try:
                got = fn(dict(a))
            except ValueError as e:
                expect(bad, 'refused although all the targets are documented', a, str(e))
                expect(any(repr(t)[1:-1] in str(e) or t in str(e) for t in bad), 'the error names a refused target',
                       a, str(e))
                continue
            expect(not bad, 'accepted a target that is not documented', a, got)
            equal(dict(got), {k: normal(t) for k, t in a.items()}, 'normalized aliases')
        return
    with scratch():
        write('t.po', PO)
        a = case['aliases']
        al = [f'<!-- {p[0]}{" " + p[1] if p[1] else ""} -->' if isinstance(p, list) else p for p in case['doc']]
        tg = [f'<!-- {normal(a.get(p[0])) if p[0] in a else p[0]}{" " + p[1] if p[1] else ""} -->'
              if isinstance(p, list) else p for p in case['doc']]
        equal(md('\n\n'.join(al), a), md('\n\n'.join(tg), {}), 'document with aliases against their targets')
        hw = [f'<p>{p}</p>' if not p.startswith('<!--') else p for p in al if not p.startswith('    ')]
        ht = [f'<p>{p}</p>' if not p.startswith('<!--') else p for p in tg if not p.startswith('    ')]
        if all(normal(a[p[0]])[5:] in HTML_COMMANDS and not (a[p[0]].endswith('context') and not p[1])
               for p in case['doc'] if isinstance(p, list) and p[0] in a):
            equal(htm('\n'.join(hw), a), htm('\n'.join(ht), {}), 'HTML with aliases against their targets')


ALIASES = ['on', 'off', 'mdpo-on', 'x-y', 'context', 'mdpo-disable', 'Æ', 'a.b', 'mdpo-', '@', 'enable', 'disable-next-block']


def gen(rng, k):
    t = lambda: rng.choice(['', 'mdpo-']) + rng.choice(DOCUMENTED)
    if rng.random() < .25:
        n = t()
        r = rng.random()
        if r < .3:
            j = rng.randrange(len(n))
            n = n[:j] + n[j + 1:]
        elif r < .5:
            n += rng.choice(['s', '-', ' ', '-next-block', '-block', '\n'])
        elif r < .6:
            n = rng.choice(['mdpo-', 'Mdpo-', '-', ' ', 'mdpo']) + n
        elif r < .7:
            n = n.upper()
        elif r < .8:
            n = rng.choice(['', 'mdpo', 'mdpo-', 'line', 'enable-next', 'next-block', 'codeblock', 'mdpo--disable'])
        return dict(kind='name', name=n)
    a = {}
    for _ in range(rng.randrange(1, 4)):
        a[rng.choice(ALIASES)] = t() if rng.random() < .93 else rng.choice(['foo', 'mdpo-foo', '', 'disable-', 'mdpo-mdpo-enable'])
    if rng.random() < .35 or any(normal(x) is None for x in a.values()):
        return dict(kind='aliases', aliases=a)
    doc = []
    for _ in range(rng.randrange(2, 9)):
        if rng.random() < .5:
            doc.append([rng.choice(list(a) + ['mdpo-enable', 'mdpo-context', 'disable']),
                        rng.choice(['', 'some text', 'some text', 'x'])])
        else:
            doc.append(rng.choice(['one', 'two', 'three', 'four', '    code']))
    return dict(kind='doc', aliases=a, doc=doc)


CORPUS = [dict(kind='name', name=p + c) for c in DOCUMENTED + ['foo', ''] for p in ('', 'mdpo-', 'mdpo-mdpo-')] + \
    [dict(kind='aliases', aliases={'a': p + c}) for c in DOCUMENTED for p in ('', 'mdpo-')] + \
    [dict(kind='doc', aliases={'on': c}, doc=['one', ['on', x], 'one', '    two', 'three', ['on', x], 'two'])
     for c in DOCUMENTED for x in ('', 'some text')]

if __name__ == '__main__':
    main(CORPUS, gen, run, 'command names and mutations of them, mappings of aliases, and documents with commands,'
         ' aliases and messages compared with the same documents without aliases')
