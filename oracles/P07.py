"""P07: the messages stored by the real extractor are those that the real translator looks up."""
from common import *
import md4c
from mdpo.md2po import Md2Po
from mdpo.po2md import Po2Md

INLINE = ['a', 'b ', 'word', ' ', '.', '*', '**', '_', '`', '``', '~~', '$', '$$', '$$x$$', '$a$', '*i*', '**b**', '***x***', '`c`', '`` a`b ``', '~~s~~',
          '[', ']', '(', ')', '![', '](', '](a)', '[l](u)', '[l](u "t")', '[l](u "a\\"b")', '![i](u)', '![i](u "t")', '![a *b* `c`](u)', '[![i](u)](v)',
          '[*e* `c`](u)', '[[w]]', '[[w|x]]', '[[', ']]', '|', '<http://a.b>', '[http://a.b](http://a.b)', '[<http://a.b>](u)', '[a][]', '[a]', '[x][a]',
          '![x][a]', '![a]', '[l](http://a.b "t")', '[l](http://a.b)', '\\', '\\*', '\\`', '&amp;', '&#42;', '<b>', '</b>', '"', '  \n', '\\\n', '\n',
          '\u00a0', '\u00e9', '{}', '[](u)', '![](u)', '[l]()', '<!-- c -->', 'a\nb']
BLOCK = ['# ', '## ', '- ', '* ', '+ ', '1. ', '2) ', '> ', '    ', '```\n', '***\n', '---\n', '===\n', '\n\n', '\n  ', '\n   ', '\n\n  ', '\n\n   ', '\n    ',
         '\n> ', '\n- ', '\n  - ', '\n   - ', '\n1. ', '\n   1. ', '\n  > ', '\n  # ', '\n  ***\n', '\n  ```\n  x\n  ```\n', '\n| a | *b* |\n|---|:-:|\n| `c` | d |\n',
         '\n  | a |\n  |---|\n', '<div>\n', '\n\n<div>x</div>\n\n', '[a]: http://a.b "t"\n', '[a]: http://a.b\n', '\n\n[b]: u "t"\n', '- [ ] ', '- [x] ',
         '\n<!-- mdpo-disable-next-line -->\n', '\n\n<!-- mdpo-context c -->\n\n', '\n\n<!-- mdpo-disable -->\n', '\n\n<!-- mdpo-enable -->\n\n',
         '\n\n<!-- mdpo-translator t -->\n', '\n\n<!-- mdpo-enable-next-block -->\n', '\n\n<!-- mdpo-include-codeblock -->\n']


class Extractor(Md2Po):
    """Extractor that records the messages stored."""

    def __init__(self, *a, **k):
        self.stored = []
        self.ended = self.code = False
        super().__init__(*a, **k)

    def _save_msgid(self, msgid, *a, **k):
        if not (self.ended or self.code or self._inside_codeblock):
            self.stored.append((msgid, k.get('msgctxt')))
        return super()._save_msgid(msgid, *a, **k)

    def _dump_link_references(self):
        self.ended = True
        super()._dump_link_references()
        self.ended = False

    def leave_block(self, block, details):
        self.code = block is md4c.BlockType.CODE
        super().leave_block(block, details)
        self.code = False


class Translator(Po2Md):
    """Translator that records the messages looked up."""
    ended = False

    def _translate_msgid(self, msgid, msgctxt, *a):
        if not (self.ended or self._inside_codeblock):
            self.looked.append((msgid, msgctxt))
        return super()._translate_msgid(msgid, msgctxt, *a)

    def _append_link_references(self):
        self.ended = True
        super()._append_link_references()


def run(case):
    doc = ''.join(case['doc'])
    with scratch(), capture():
        write('a.md', doc)
        for a, p in ((doc, False), ('a.md', True)):
            md = Extractor('a.md' if p else '\n' + doc)
            try:
                po = md.extract()
            except ValueError as e:
                if str(e).startswith('You need to specify'):
                    return          # refused
                raise
            po.save('a.po')
            t = Translator(['a.po'])
            t.looked = []
            t.translate('a.md' if p else '\n' + doc)
            expect(t.looked == md.stored, f'stored {md.stored!r}, looked up {t.looked!r}')


def C(*doc):
    return dict(doc=list(doc))


CORPUS = [C(d) for d in (
    'a *b* `c` **d** ~~e~~ $f$ $$g$$ [h](i "j") ![k](l "m") [[n]] [[o|p]] <http://q.r>\n', '# a\nb\n===\n', '- a\n- b\n  - c\n    1. d\n  - e\n\n  f\n\ng\n',
    '- a\n  # b\n  c\n', '- a\n  ***\n  b\n', '- a\n  > b\n- c\n', '- a\n  ```\n  x\n  ```\n  b\n', '| a | b |\n|---|---|\n| c *d* | e |\n', '> a\n> b\n>\n> - c\n>   d\n',
    '[a][b]\n\n[b]: u "t"\n', '[a](u "t")\n\n[b]: u "t"\n[c]: u\n', '[a](u)\n\n[c]: u "t"\n[b]: u\n', '![a](u "t")\n\n[b]: u "t"\n', '[u](u)\n', '[u](u "t")\n', '[a](<> "t")\n',
    '[b]\n\n[b]: u\n', 'a  \nb\\\nc\n', '- a\n  b\n', '- a\n\n  b\n  c\n', '`` a`b ``\n', '[`` a`b ``](u)\n', '[![a](b "c")](d "e")\n', '![a\nb](c)\n', '![a *b*](c)\n', '[[a]](b)\n',
    'a \\* \\` \\_ b\n', '&amp; &#42; \\[\n', '- $$a$$ b\n', 'a $$b\nc$$ d\n', '[a $b$ $$c$$](d)\n', '1. a\n   1. b\n2. c\n', '- a\n  1. b\n', '1. a\n   - b\n\n   c\n', '- a\n  | b |\n  |---|\n',
    '<!-- mdpo-context c -->\n\na\n\nb\n', '- [ ] a\n- [x] b\n', '- a\n<div>\n', '[<http://a.b>](c)\n', '*a\nb*\n', '![![a](b)](c)\n', '[a](u "x\\"y")\n', '- a\n\n\n  b\n', '> - a\n>\n>   b\n', '- > a\n  > - b\n\n  c\n')]


URLS = ['u', 'http://a.b', 'v.md', 'U']


def inline(rng, deep=2):
    """Well formed inline markup."""
    w = lambda: rng.choice(['a', 'b', 'word', 'a b', 'A', 'u', '\\*', '\\`', '&amp;', 'x"y', '{}', 'a\nb', 'c  \nd', '!'])
    k = rng.randrange(16 if deep else 3)
    sub = lambda: ' '.join(inline(rng, deep - 1) for _ in range(rng.randint(1, 2)))
    title = rng.choice(['', '', ' "t"', ' "a\\"b"', " 't u'"])
    url = rng.choice(URLS)
    if k < 4:
        return w()
    if k == 4:
        return f'*{sub()}*'
    if k == 5:
        return f'**{sub()}**'
    if k == 6:
        return rng.choice(['`c`', '`` a`b ``', '``` `` ```', '`a b`', '` `'])
    if k == 7:
        return f'~~{sub()}~~'
    if k == 8:
        return rng.choice(['$x$', '$$x$$', '$$ x $$', '$$x\ny$$'])
    if k in (9, 10):
        return f'[{sub()}]({url}{title})'
    if k == 11:
        return f'![{sub()}]({url}{title})'
    if k == 12:
        return rng.choice(['[[w]]', '[[w|x]]', '[[w|a b]]', f'[[w|{w()}]]'])
    if k == 13:
        return rng.choice([f'[{sub()}][r]', '[r]', '[R][]', f'![{w()}][r]', '[R][r]', '[r][R]', '[s][r]'])
    if k == 14:
        return rng.choice(['<http://a.b>', '[http://a.b](http://a.b)', '[u](u)', f'[u](u{title})', '<b>', '<!-- c -->'])
    return f'![![{w()}](u) {w()}](v{title}) {w()}'


def para(rng):
    return rng.choice([' ', ' ', '\n']).join(inline(rng) for _ in range(rng.randint(1, 4))).lstrip('#->|0123456789+= ')


def indent(t, first, rest):
    l = t.split('\n')
    return '\n'.join([first + l[0]] + [(rest + x) if x else x for x in l[1:]])


def block(rng, deep):
    k = rng.randrange(11 if deep else 6)
    if k < 2:
        return para(rng)
    if k == 2:
        return rng.choice(['# ', '### ']) + para(rng).replace('\n', ' ')
    if k == 3:
        return rng.choice(['***', '<div>x</div>', '<!-- mdpo-context c -->', '<!-- mdpo-disable-next-line -->', '<!-- mdpo-translator t -->',
                           '<!-- mdpo-enable-next-line -->', '<!-- mdpo-disable -->', '<!-- mdpo-enable -->'])
    if k == 4:
        return rng.choice(['```\nx\n```', '~~~ py\nx\n\ny\n~~~', '    x\n    y'])
    if k == 5:
        return rng.choice([para(rng) + '\n===', '| ' + para(rng).replace('\n', ' ') + ' | b |\n|---|:-:|\n| *c* | ' + para(rng).replace('\n', ' ') + ' |'])
    if k == 6:
        return indent(blocks(rng, deep - 1), '> ', '> ')
    mark = rng.choice(['- ', '- [ ] ', '* ', '1. ', '1) '])
    return rng.choice(['\n', '\n', '\n\n']).join(indent(blocks(rng, deep - 1, rng.choice(['\n', '\n', '\n\n'])), mark, ' ' * len(mark.replace('[ ] ', '')))
                                                   for _ in range(rng.randint(1, 3)))


def blocks(rng, deep, sep='\n\n'):
    return sep.join(block(rng, deep) for _ in range(rng.randint(1, 3)))


DEFS = ['', '', '[r]: u', '[r]: u "t"', '[r]: http://a.b', '[R]: U', '[q]: v.md\n[r]: v.md "t"', '[r]: u "t"\n[q]: u', '[u]: u']


def gen(rng, k):
    if k % 3:
        return C(*[x + '\n' for x in (blocks(rng, rng.randint(0, 3)) + '\n\n' + rng.choice(DEFS)).split('\n')])
    n = rng.choice([2, 4, 6, 9, 14])
    doc = []
    for _ in range(rng.randint(1, n)):
        doc.append(rng.choice(INLINE) if rng.random() < 0.6 else rng.choice(BLOCK))
    if rng.random() < 0.3:
        doc.append('\n\n[a]: ' + rng.choice(['http://a.b', 'u', 'u "t"', 'http://a.b "t"']) + '\n')
    return C(*doc)


if __name__ == '__main__':
    main(CORPUS, gen, run, 'documents of random pieces of markup; distinct = different documents', shrink=lines_shrink('doc'))
