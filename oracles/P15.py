"""P15: location references against a reference numbering of the top level blocks."""
from common import *
from P03 import Gen as Pieces
from P03 import render
from mdpo.md2po import Md2Po

KIND = {'quote': 'quote', 'ul': 'unordered list', 'ol': 'ordered list', 'h': 'header', 'code': 'code', 'html': 'html',
        'p': 'paragraph', 'table': 'table', 'cmd': 'html'}


class Count:
    def __init__(self):
        self.n, self.kind = 0, None
        self.msgs = {}

    def block(self, k, quotes, lists):
        if k in KIND and not quotes and not (lists and k != 'quote'):
            self.n += 1
            self.kind = KIND[k]

    def msg(self, w):
        self.msgs[w] = f'block {self.n} ({self.kind})'


def walk(pieces, c, q=0, l=0):
    for p in pieces:
        k = p[0]
        if k == 'ref':
            continue
        if k == 'code' and not p[2]:
            c.block('html', q, l)      # the separator before indented code
        c.block(k, q, l)
        if k == 'cmd':
            if p[1].startswith('mdpo-include '):
                c.msg(p[1].split(' ', 1)[1])
        elif k in ('p', 'h'):
            c.msg(p[1])
        elif k == 'quote':
            walk(p[1], c, q + 1, l)
        elif k in ('ul', 'ol'):
            for it in p[1]:
                c.msg(it[0])
                walk(it[1:], c, q, l + 1)
        elif k == 'table':
            for r in p[1]:
                for x in r:
                    c.msg(x)
        elif k == 'code' and p[1]:
            c.msg(p[1] + '\n')


def text(pieces, refs):
    t = render(pieces)
    if refs:
        t += '\n\n***\n\n' + '\n'.join(f'[{r}]: u{r}' for r in refs)
    return t + '\n'


def run(case):
    with scratch():
        want = {}
        names = []
        for i, d in enumerate(case['docs']):
            name = f'd{i}/{i}.md'
            names.append(name)
            refs = case['refs'][i]
            pieces = d + [['p', f'z{i} [{r}]'] for r in refs]
            write(name, text(pieces, refs))
            c = Count()
            walk(pieces, c)
            for r in refs:
                del c.msgs[f'z{i} [{r}]']
                c.msg(f'[{r}]: u{r}')
                c.msgs[f'z{i} [{r}][{r}]'] = None
            for m, b in c.msgs.items():
                want[m] = [(name, b)] if case['location'] else []
            if i == 0:
                content = '\n' + text(pieces, refs)
        kw = dict(include_codeblocks=True, location=case['location'])
        m = Md2Po('d?/*.md' if case['glob'] else names, **kw)
        m.extract()
        check(m.pofile, want, 'files')
        m = Md2Po(content, **kw)
        m.extract()
        for e in m.pofile:
            equal(e.occurrences, [], f'references of {e.msgid!r} extracted from a content')
        if case['save']:
            for _ in range(2):
                m = Md2Po(names, **kw)
                m.extract(save=True, po_filepath='o.po')
                check(m.found_entries, want, 'saved')


def check(pofile, want, what):
    for e in pofile:
        if e.obsolete:
            continue
        expect(e.msgid in want or e.msgid.startswith('z'), f'unexpected message ({what}) {e.msgid!r}')
        w = want.get(e.msgid)
        if e.msgid.startswith('z') or w and w[0][1] is None:
            continue
        equal(e.occurrences, w, f'references of {e.msgid!r} ({what})')


class Gen(Pieces):
    def piece(self, deep=0):
        r = self.r
        if r.random() < .12:
            its = []
            for _ in range(r.randrange(1, 3)):
                it = [self.word()]
                for _ in range(r.randrange(0, 3)):
                    x = r.random()
                    if x < .3 and deep < 3:
                        it.append(['quote', self.pieces(deep + 1, 3)])
                    elif x < .6 and deep < 3:
                        it.append(['ul' if r.random() < .5 else 'ol', [[self.word(), ['p', self.word()]]], True])
                    elif x < .75:
                        it.append(['code', self.word(), True])
                    else:
                        it.append(['p', self.word()])
                    if it[-1][0] in ('quote', 'ul', 'ol'):
                        it.append(['p', self.word()])
                its.append(it)
            return [r.choice(['ul', 'ol']), its, True]
        if r.random() < .1:
            return ['cmd', 'mdpo-include ' + self.word()]
        p = super().piece(deep)
        if p[0] == 'cmd' and 'able' in p[1]:
            return ['cmd', 'note']
        return fix(p)


def fix(p):
    if p[0] in ('ul', 'ol'):
        for it in p[1]:
            it[1:] = [['cmd', 'note'] if q[0] == 'cmd' and 'able' in q[1] else fix(q) for q in it[1:]]
    elif p[0] == 'quote':
        p[1] = [['cmd', 'note'] if q[0] == 'cmd' and 'able' in q[1] else fix(q) for q in p[1]]
    return p


def gen(rng, k):
    g = Gen(rng)
    n = rng.choice([1, 1, 2, 3])
    return dict(docs=[g.pieces() for _ in range(n)],
                refs=[[f'r{i}{j}' for j in range(rng.choice([0, 0, 1, 2]))] for i in range(n)],
                location=rng.choice([True, True, True, False]), glob=rng.random() < .5, save=rng.random() < .2)


BL = lambda a: [['h', a + '1'], ['p', a + '2'], ['quote', [['p', a + '3'], ['quote', [['p', a + '4']]], ['h', a + '5'],
                ['code', a + '6', True], ['ul', [[a + '7']], False]]],
                ['ul', [[a + '8', ['ol', [[a + '9']], False]], [a + '10']], False], ['hr'],
                ['ol', [[a + '11', ['quote', [['p', a + '12'], ['ul', [[a + '13']], False]]], ['p', a + '14']], [a + '15']], True],
                ['table', [[a + '16', a + '17'], [a + '18', a + '19']]], ['html'], ['code', a + '20', True], ['html'],
                ['cmd', 'mdpo-include ' + a + '21'], ['code', a + '22', False], ['p', a + '23']]
CORPUS = [dict(docs=[BL('a'), BL('b')], refs=[['ra'], []], location=l, glob=g, save=True)
          for l in (True, False) for g in (True, False)] + [
    dict(docs=[[['ul', [['w1', x, ['p', 'w2']], ['w3']], True], ['p', 'w4'], x2], [x3]], refs=[[], ['r']], location=True, glob=False,
         save=False)
    for x, x2, x3 in [[[k, [[f'w{i}', ['p', f'w{i}0']]], True] if k in ('ul', 'ol') else
                       ['quote', [['p', f'w{i}'], ['p', f'w{i}0']]] if k == 'quote' else
                       ['code', f'w{i}', True] if k == 'code' else ['table', [[f'w{i}'], [f'w{i}0']]] if k == 'table' else
                       ['h', f'w{i}'] for i in (5, 6, 7)] for k in ('ul', 'ol', 'quote', 'code', 'table', 'h')]]

if __name__ == '__main__':
    main(CORPUS, gen, run, 'nestings of blocks in one or several files, the number of each block counted by a reference')
