"""P08: the real tools read random documents made of pieces of markup without internal errors."""
from common import *
import polib
from mdpo.md2po import Md2Po
from mdpo.po2md import Po2Md

PIECES = ['# ', '###### ', '- ', '* ', '+ ', '1. ', '2) ', '> ', '    ', '```\n', '``` py\n', '~~~\n', '***\n', '---\n', '===\n', '\n', '\n\n',
          '\n\n\n', '  \n', '\\\n', '\n  ', '\n   ', '\n      ', '\n> ', '\n- ', '\n  - ', '\n1. ', 'a', 'b ', 'word', ' ', '.', '*', '**', '_', '__', '`', '``',
          '~~', '$', '$$', '[', ']', '(', ')', '![', '](', '](a)', '](a "t")', '](<> "t")', '[]()', '![]()', '![', '[a](', '[[', '[[a',
          '[[a|', ']]', '|', '||', '| a | b |\n|---|:-:|\n| c |', '|\n|--:|:--|\n|', '<http://a.b>', 'http://a.b', '[a]: http://a.b "t"\n',
          '[a]: http://a.b\n', '[a][]', '[a]', '[x][a]', '\\', '\\*', '&amp;', '&#0;', '<b>', '</b>', '<div>\n', '</div>\n', '<!-- x -->', '"',
          '- [ ] ', '- [x] ', '\t', '\0', '\r\n', '\u00a0', '\u2028', '\u00e9', '<!-- mdpo-context a -->\n', '<!-- mdpo-context -->\n',
          '<!-- mdpo-translator a -->\n', '<!-- mdpo-include a -->\n', '<!-- mdpo-include -->\n', '<!-- mdpo-disable -->\n',
          '<!-- mdpo-disable-next-line -->\n', '<!-- mdpo-enable -->\n', '<!-- mdpo-include-codeblock -->\n', '<!-- mdpo-include-codeblocks -->\n',
          '<!-- mdpo-enable-next-block -->\n', '<!-- mdpo- -->', '<!--']
COMMENTED = ('translator', 'context', 'include')


def refused(f, doc):
    """Result of f or None if the document is refused as documented."""
    try:
        return f()
    except ValueError as e:
        expect(str(e).startswith('You need to specify') and any(f'mdpo-{c}' in doc for c in COMMENTED), f'ValueError: {e}')


def run(case):
    doc = ''.join(case['doc'])
    with scratch(), capture():
        write('a.md', doc)
        md = Md2Po('a.md')
        po = refused(lambda: md.extract(), doc)
        f = polib.POFile()
        for i, e in enumerate(po if po is not None else ()):
            t = case['tr'][i % len(case['tr'])]
            f.append(polib.POEntry(msgid=e.msgid, msgctxt=e.msgctxt, msgstr=e.msgid if t == 'same' else t))
        f.save('a.po')
        Po2Md(['a.po'], **({'wrapwidth': case['width']} if case['width'] else {})).translate('a.md')


def C(doc, tr=('',), width=0):
    return dict(doc=[doc] if isinstance(doc, str) else list(doc), tr=list(tr), width=width)


CORPUS = [C(d) for d in (
    '', '\n', '***\n', '[]()\n', '![]()\n', '[a](<> "t")\n', '![]([[_)]]\n', '![a]([[a)]]\n', '- > a\n\n  b\n', '-\n  1.\n', '> -\n>   ```\n', '- ***\n- a\n  - b\n    1. c\n\n- ```\n  x\n  ```\n',
    '| a | b |\n|---|:-:|\n| c | d |\n', '> | a |\n> |---|\n> | c |\n', '[[]]\n\n[[a|b]]\n', '$$\na\n$$\n', '- a\n\n      code\n', '>\n', '- >\n', '1. >\n   > - a\n', '# \n', '```\n', '<div>', '***\n\n[x]: http://a "t"\n',
    '[a](http://x "a\\"b")\n\n![x](y "z")\n', '![![a](b)](c)\n', '![![a](b "t")](c "u")\n', '[![a](b)](c)\n', '- [ ] a\n- [x] b\n', '<!-- mdpo-include -->\n', '> <!-- mdpo-include a -->\n', '[<http://a>](u "t")\n', '*[](*)\n')]


def gen(rng, k):
    n = rng.choice([2, 4, 6, 9, 12, 20])
    return C([rng.choice(PIECES) for _ in range(rng.randint(1, n))], rng.sample(['', 'same', 'x', '*', '`a', 'a b ' * 40, '\n', 'x\ny', '   ', '- a'], 2),
             rng.choice([0, 0, 10, 80]))


if __name__ == '__main__':
    main(CORPUS, gen, run, 'documents of random pieces of markup; distinct = different documents', shrink=lines_shrink('doc'))
