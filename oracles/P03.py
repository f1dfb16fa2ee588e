"""P03: disable and enable commands against a reference semantics of documents."""
import warnings

from common import *
from mdpo.md2po import Md2Po
from mdpo.mdpo2html import MdPo2HTML
from mdpo.po2md import Po2Md

# pieces of documents: ['cmd', name] ['p', w] ['h', w] ['quote', pieces] ['ul'/'ol', items] (item: list of pieces, the
# first one the text of the item) ['table', rows] ['code', w, fenced] ['hr'] ['ref', w] ['html']


def render(pieces, indent=''):
    out = []
    for p in pieces:
        k = p[0]
        if k == 'cmd':
            out.append(f'<!-- {p[1]} -->')
        elif k == 'p':
            out.append(p[1])
        elif k == 'h':
            out.append('## ' + p[1])
        elif k == 'quote':
            out.append('\n'.join('> ' + l if l else '>' for l in render(p[1]).split('\n')))
        elif k in ('ul', 'ol'):
            m = '-' if k == 'ul' else '1.'
            its = []
            for it in p[1]:
                sep = '\n\n' if p[2] else '\n'
                t = sep.join([it[0]] + [render([q]) for q in it[1:]])
                ls = t.split('\n')
                pad = ' ' * (len(m) + 1)
                its.append('\n'.join([f'{m} {ls[0]}'] + [pad + l if l else '' for l in ls[1:]]))
            out.append(('\n\n' if p[2] else '\n').join(its))
        elif k == 'table':
            rows = p[1]
            ls = ['| ' + ' | '.join(r) + ' |' for r in rows]
            ls.insert(1, '|' + ' --- |' * len(rows[0]))
            out.append('\n'.join(ls))
        elif k == 'code':
            out.append(f'```\n{p[1]}{chr(10) if p[1] else ""}```' if p[2] else f'<div></div>\n\n    {p[1]}')
        elif k == 'hr':
            out.append('***')
        elif k == 'html':
            out.append('<div></div>')
    return '\n\n'.join(out)


def events(pieces):
    for p in pieces:
        k = p[0]
        if k == 'cmd':
            yield ('cmd', p[1])
        elif k in ('p', 'h'):
            yield ('msg', p[1])
        elif k == 'quote':
            yield from events(p[1])
        elif k in ('ul', 'ol'):
            for it in p[1]:
                yield ('msg', it[0])
                yield from events(it[1:])
        elif k == 'table':
            for r in p[1]:
                for c in r:
                    yield ('msg', c)
        elif k == 'code':
            yield ('code', p[1])


class State:
    def __init__(self):
        self.clear()

    def clear(self):
        self.off = self.skip = self.take = False

    def command(self, c):
        c = c.replace('mdpo-', '')
        if c in ('disable-next-block', 'disable-next-line'):
            self.skip = True
        elif c in ('enable-next-block', 'enable-next-line'):
            self.take = True
        elif c == 'disable':
            self.off = True
        elif c == 'enable':
            self.off = False

    def message(self):
        r = self.take or not (self.off or self.skip)
        self.skip = self.take = False
        return r


def reference(pieces, codes, st=None):
    """Messages selected and disabled, in order."""
    st = st or State()
    sel, dis = [], []
    for e, x in events(pieces):
        if e == 'cmd':
            st.command(x)
            if x.startswith('mdpo-include '):
                (sel if st.message() else dis).append(x.split(' ', 1)[1])
        elif e == 'msg':
            (sel if st.message() else dis).append(x)
        else:
            r = st.message()
            if codes and x:
                (sel if r else dis).append(x + '\n')
    return sel, dis


def po(words):
    write('t.po', '#\nmsgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n\n' + '\n\n'.join(
        f'msgid "{w}"\nmsgstr "T{w}"' for w in words) + '\n')


def ids(l):
    return [e.msgid for e in l]


def run(case):
    with scratch():
        if case['kind'] == 'html':
            return run_html(case)
        if case['kind'] == 'plain':
            return run_plain(case)
        docs = case['docs']
        want = [reference(d, case['codes']) for d in docs]
        texts = [render(d) for d in docs]
        for i, t in enumerate(texts):
            write(f'{i}.md', t)
        m = Md2Po([f'{i}.md' for i in range(len(docs))], include_codeblocks=case['codes'], location=False)
        m.extract()
        equal(ids(m.pofile), [x for w in want for x in w[0]], 'extracted')
        equal(ids(m.disabled_entries), [x for w in want for x in w[1]], 'disabled by md2po')
        s = Md2Po('\n' + texts[0], include_codeblocks=case['codes'], location=False)
        s.extract()
        equal(ids(s.pofile), want[0][0], 'extracted from content')
        noinc = [[p for p in d] for d in docs]
        plain = [reference(d, True) for d in strip(noinc)]
        po([x.rstrip('\n') for w in plain for y in w for x in y])
        p = Po2Md(['t.po'])
        done = dis = 0
        for i, d in enumerate(strip(noinc)):
            p.outputlines = []
            out = p.translate(render(d))
            got = p.translated_entries[done:], p.disabled_entries[dis:]
            done, dis = len(p.translated_entries), len(p.disabled_entries)
            equal(ids(got[1]), plain[i][1], 'disabled by po2md')
            words = out.translate(dict.fromkeys(map(ord, '|<>'), ' ')).split()
            for x in plain[i][0]:
                if not x.endswith('\n'):
                    expect('T' + x in words and x not in words, f'{x} is translated', out)
            for x in plain[i][1]:
                expect(x.strip() in words and 'T' + x.strip() not in words, f'{x} is not translated', out)


def strip(docs):
    """The same documents without include commands (po2md has no such messages)."""
    def f(ps):
        out = []
        for p in ps:
            if p[0] == 'cmd' and p[1].startswith('mdpo-include '):
                continue
            if p[0] == 'quote':
                p = ['quote', f(p[1]) or [['hr']]]
            elif p[0] in ('ul', 'ol'):
                p = [p[0], [[it[0]] + f(it[1:]) for it in p[1]], p[2]]
            out.append(p)
        return out
    return [f(d) for d in docs]


def run_plain(case):
    """Plain text: the titles of links and images are messages that do not use up the marks."""
    st = State()
    sel, dis = [], []
    md = []
    for x in case['pieces']:
        if x[0] == 'cmd':
            st.command(x[1])
            md.append(f'<!-- {x[1]} -->')
        else:
            _, w, title, img = x
            ok = st.take or not (st.off or st.skip)
            if title:
                (sel if ok else dis).append(title)
            (sel if st.message() else dis).append(w)
            t = f' "{title}"' if title else ''
            md.append(f'{"!" if img else ""}[{w}](x{t})')
    m = Md2Po('\n\n'.join(md), plaintext=True, location=False)
    m.extract()
    equal(ids(m.pofile), sel, 'extracted as plain text')
    equal(ids(m.disabled_entries), dis, 'disabled as plain text')


def run_html(case):
    st = State()
    sel, dis, out = [], [], []

    def msg(w):
        if w.strip():
            (sel if st.message() else dis).append(w)
    for x in case['pieces']:
        k = x[0]
        if k == 'cmd':
            st.command(x[1])
            out.append(f'<!-- {x[1]} -->')
        elif k in ('p', 'h2'):
            msg(x[1])
            out.append(f'<{k}>{x[1]}</{k}>')
        elif k == 'ul':
            o = '<ul>'
            for w, c in x[1]:
                msg(w)
                o += f'\n<li>{w}</li>' if not x[2] else f'\n<li><p>{w}</p>\n</li>'
                if c:
                    st.command(c)
                    o += f'\n<!-- {c} -->'
            out.append(o + '\n</ul>')
        elif k == 'table':
            for w in x[1]:
                msg(w)
            out.append('<table><tbody><tr>' + ''.join(f'<td>{w}</td>' for w in x[1]) + '</tr></tbody></table>')
    po([w for w in sel + dis])
    for _ in range(2):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h = MdPo2HTML(['t.po'])
            for n in range(case['times']):
                h.output = ''
                h.disabled_entries = []
                r = h.translate('\n'.join(out))
                equal(ids(h.disabled_entries), dis, 'disabled by mdpo2html')
                words = r.replace('<', ' ').replace('>', ' ').split()
                for w in sel:
                    expect('T' + w in words and w not in words, f'{w} is translated', r)
                for w in dis:
                    expect(w in words and 'T' + w not in words, f'{w} is not translated', r)
                if st.off or st.skip or st.take:
                    st.clear()


CMDS = ['mdpo-' + c for c in ('disable', 'enable', 'disable-next-block', 'disable-next-line', 'enable-next-block',
                              'enable-next-line')]


class Gen:
    def __init__(self, rng):
        self.r, self.n = rng, 0

    def word(self):
        self.n += 1
        return f'w{self.n}x'

    def cmd(self):
        r = self.r
        if r.random() < .08:
            return ['cmd', 'mdpo-include ' + self.word()]
        return ['cmd', r.choice(CMDS)]

    def piece(self, deep=0):
        r = self.r
        x = r.random()
        if x < .3:
            return self.cmd()
        if x < .5 or deep > 2:
            return ['p', self.word()]
        if x < .58:
            return ['h', self.word()]
        if x < .66:
            return ['quote', self.pieces(deep + 1, 3)]
        if x < .82:
            its = []
            for _ in range(r.randrange(1, 4)):
                it = [self.word()]
                loose = None
                for _ in range(r.randrange(0, 3)):
                    q = (self.cmd() if r.random() < .5 else ['ul', [[self.word()]], False] if r.random() < .7
                         else ['quote', [['p', self.word()]]])
                    if len(it) < 2 or it[-1][0] == 'cmd' or q[0] == 'cmd':
                        it.append(q)
                its.append(it)
            return [r.choice(['ul', 'ul', 'ol']), its, r.random() < .4]
        if x < .88:
            n = r.randrange(1, 3)
            return ['table', [[self.word() for _ in range(n)] for _ in range(2)]]
        if x < .94:
            return ['code', self.word() if r.random() < .8 else '', True]
        return [r.choice(['hr', 'html'])]

    def pieces(self, deep=0, n=8):
        out = []
        for _ in range(self.r.randrange(1, n)):
            p = self.piece(deep)
            if out and out[-1][0] == p[0] and p[0] in ('ul', 'ol', 'quote'):
                out.append(['p', self.word()])
            if out and out[-1][0] in ('ul', 'ol') and p[0] in ('ul', 'ol', 'code'):
                out.append(['p', self.word()])
            out.append(p)
        return out


def gen(rng, k):
    g = Gen(rng)
    x = rng.random()
    if x < .2:
        ps = []
        for _ in range(rng.randrange(2, 9)):
            y = rng.random()
            c = rng.choice(CMDS)
            if y < .4:
                ps.append(['cmd', c])
            elif y < .65:
                ps.append([rng.choice(['p', 'h2']), g.word() if rng.random() < .85 else ''])
            elif y < .85:
                ps.append(['ul', [[g.word(), c if rng.random() < .3 else None] for _ in range(rng.randrange(1, 4))],
                           rng.random() < .5])
            else:
                ps.append(['table', [g.word() if rng.random() < .8 else '' for _ in range(rng.randrange(1, 4))]])
        return dict(kind='html', pieces=ps, times=1)
    if x < .3:
        ps = []
        for _ in range(rng.randrange(2, 9)):
            if rng.random() < .45:
                ps.append(['cmd', rng.choice(CMDS)])
            else:
                ps.append(['lnk', g.word(), g.word() if rng.random() < .7 else '', rng.random() < .4])
        return dict(kind='plain', pieces=ps)
    return dict(kind='doc', docs=[g.pieces() for _ in range(rng.choice([1, 1, 2, 3]))], codes=rng.random() < .5)


CORPUS = [dict(kind='doc', codes=c, docs=[[['cmd', a], ['cmd', b], ['p', 'one'], ['p', 'two'], ['cmd', 'mdpo-enable'], ['h', 'three']],
                                          [['p', 'four'], ['cmd', b]], [['p', 'five'], ['p', 'six']]])
          for c in (True, False) for a in CMDS for b in CMDS] + [
    dict(kind='doc', codes=c, docs=[[['ul', [['one', ['cmd', a], ['ul', [['two']], False]], ['three', ['cmd', 'mdpo-include four']],
                                             ['five']], l], ['code', x, True], ['p', 'seven']]])
    for x in ('', 'six')
    for a in CMDS for l in (True, False) for c in (True, False)] + [
    dict(kind='html', times=1, pieces=[['p', ''], ['ul', [['one', c], ['two', None]], l], ['p', 'three'], ['cmd', 'mdpo-enable'],
                                       ['cmd', c], ['p', ''], ['table', ['', 'four', 'five']]])
    for c in CMDS for l in (True, False)] + [
    dict(kind='html', times=2, pieces=[['p', 'one'], ['cmd', c]]) for c in CMDS]

if __name__ == '__main__':
    main(CORPUS, gen, run, 'documents of nested blocks with commands between them, several files, plain text with titles,'
         ' HTML; messages selected by a reference semantics')
