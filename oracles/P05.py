"""P05: contexts and translator comments against a reference semantics of documents."""
import warnings

from common import *
import P03 as D
from mdpo.md2po import Md2Po
from mdpo.mdpo2html import MdPo2HTML
from mdpo.po2md import Po2Md

SPECIAL = ('mdpo-context', 'mdpo-translator', 'mdpo-include')


class Refused(Exception):
    pass


def reference(pieces, codes, md2po):
    """(text, context, comment) of the messages in order; whether each one is selected."""
    st = D.State()
    out = []
    ctx = com = None

    def message(x, kept=True):
        nonlocal ctx, com
        r = st.message()
        if kept:
            out.append((x, ctx, com, r))
        ctx = com = None
    for e, x in D.events(pieces):
        if e == 'cmd':
            name, _, arg = x.partition(' ')
            arg = arg.strip()
            if name in SPECIAL:
                if not arg:
                    if md2po:
                        raise Refused(name)
                    continue
                if name == SPECIAL[0]:
                    ctx = arg
                elif name == SPECIAL[1]:
                    com = arg
                elif md2po:
                    message(arg)
            else:
                st.command(name)
        elif e == 'msg':
            message(x)
        else:
            message(x + '\n', bool(codes and x))
    return out


def run(case):
    with scratch():
        if case['kind'] == 'html':
            return run_html(case)
        if case['kind'] == 'refs':
            m = Md2Po('\n\n'.join(['[a]'] + [f'<!-- {c} -->' for c in case['cmds']] + ['[a]: x\n[b]: y']), location=False)
            m.extract()
            ctx = com = None
            for c in case['cmds']:
                n, _, x = c.partition(' ')
                ctx, com = (x, com) if n == SPECIAL[0] else (ctx, x)
            equal([(e.msgid, e.msgctxt, e.comment) for e in m.pofile],
                  [('[a]', None, None), ('[a]: x', ctx, com), ('[b]: y', None, None)], 'entries of the definitions')
            return
        docs, codes = case['docs'], case['codes']
        for d in docs:
            try:
                want = reference(d, codes, True)
            except Refused as e:
                want = str(e)
            m = Md2Po('\n' + D.render(d), include_codeblocks=codes, location=False, msgstr=case['msgstr'])
            try:
                m.extract()
            except ValueError as e:
                expect(isinstance(want, str) and f"'{want}'" in str(e), 'refused', str(e), want)
            else:
                expect(not isinstance(want, str), 'a command without text is refused', want)
                seen, sel = set(), []
                for w in want:
                    if w[3] and w[:2] not in seen:
                        seen.add(w[:2])
                        sel.append(w[:3])
                equal([(e.msgid, e.msgctxt, e.comment) for e in m.pofile], sel, 'entries')
                equal([(e.msgid, e.msgctxt, e.comment) for e in m.found_entries], [w[:3] for w in want if w[3]], 'found')
                equal([(e.msgid, e.msgctxt) for e in m.disabled_entries], [w[:2] for w in want if not w[3]], 'disabled')
                equal({e.msgstr for e in m.found_entries} - {case['msgstr']}, set(), 'default translations')
            d2 = D.strip([d])[0]
            want = reference(d2, True, False)
            po([w[0].rstrip('\n') for w in want])
            p = Po2Md(['t.po'])
            out = p.translate(D.render(d2))
            words = out.translate(dict.fromkeys(map(ord, '|<>'), ' ')).split()
            for x, c, t, r in want:
                x = x.rstrip('\n')
                if not x or x + '\n' in [w[0] for w in want]:
                    continue
                w = (f'{c}{x}' if c in CONTEXTS else 'T' + x if c is None else x) if r else x
                expect(w in words, f'{x} with context {c} is written as {w}', out)
            equal([(e.msgid, e.msgctxt) for e in p.disabled_entries], [w[:2] for w in want if not w[3]],
                  'disabled by po2md')
            equal([(e.msgid, e.msgctxt, e.tcomment) for e in p.translated_entries if not e.msgid.endswith('\n')],
                  [w[:3] for w in want if w[3] and not w[0].endswith('\n') and (w[1] is None or w[1] in CONTEXTS)],
                  'translated by po2md')


CONTEXTS = ('one', 'two')


def po(words):
    write('t.po', '#\nmsgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n\n' + '\n\n'.join(
        f'msgid "{w}"\nmsgstr "T{w}"\n\n' + '\n\n'.join(f'msgctxt "{c}"\nmsgid "{w}"\nmsgstr "{c}{w}"' for c in CONTEXTS)
        for w in dict.fromkeys(words)) + '\n')


def run_html(case):
    st, ctx = D.State(), None
    out, want = [], []
    for x in case['pieces']:
        if x[0] == 'cmd':
            name, _, arg = x[1].partition(' ')
            out.append(f'<!-- {x[1]} -->')
            if name == SPECIAL[0]:
                ctx = arg or ctx
            elif name not in SPECIAL:
                st.command(name)
        else:
            out.append(f'<{x[0]}>{x[1]}</{x[0]}>')
            if x[1]:
                want.append((x[1], ctx, st.message()))
                ctx = None
    po([w[0] for w in want])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        h = MdPo2HTML(['t.po'])
        r = h.translate('\n'.join(out))
    words = r.replace('<', ' ').replace('>', ' ').split()
    for x, c, ok in want:
        w = (f'{c}{x}' if c in CONTEXTS else 'T' + x if c is None else x) if ok else x
        expect(w in words, f'{x} with context {c} is written as {w}', r)
    equal([(e.msgid, e.msgctxt) for e in h.disabled_entries], [w[:2] for w in want if not w[2]], 'disabled by mdpo2html')


class Gen(D.Gen):
    def cmd(self):
        r = self.r
        if r.random() < .3:
            return ['cmd', r.choice(D.CMDS)]
        c = r.choice(SPECIAL)
        arg = r.choice(['one', 'two', 'three', 'some text']) if c != SPECIAL[2] else self.word()
        if r.random() < .03:
            arg = ''
        return ['cmd', f'{c} {arg}'.strip()]

    def word(self):
        return super().word() if self.r.random() < .9 else 'same'


def gen(rng, k):
    g = Gen(rng)
    if rng.random() < .2:
        return dict(kind='html', pieces=[
            [rng.choice(['p', 'h2']), D.Gen.word(g) if rng.random() < .8 else ''] if rng.random() < .6 else g.cmd()
            for _ in range(rng.randrange(2, 9))])
    return dict(kind='doc', docs=[g.pieces()], codes=rng.random() < .5, msgstr=rng.choice(['', '', 'default']))


def has_same(ps):
    return json.dumps(ps).count('"same"') > 1


PLACES = [[['p', 'a']], [['h', 'a']], [['quote', [['p', 'a']]]], [['table', [['a', 'b'], ['c', 'd']]]], [['code', 'a', True]],
          [['code', '', True]], [['ul', [['a', ['ul', [['b']], False]], ['c']], False]], [['ul', [['a'], ['c']], True]],
          [['hr']], [['html']]]
CORPUS = [dict(kind='refs', cmds=c) for c in (['mdpo-context one'], ['mdpo-translator some'],
                                              ['mdpo-context one', 'mdpo-translator some'])] + [dict(kind='doc', docs=[[['cmd', c]] + p + [['p', 'x'], ['p', 'y']]], codes=co, msgstr='')
          for c in ('mdpo-context one', 'mdpo-translator some text', 'mdpo-include z', 'mdpo-context', 'mdpo-translator',
                    'mdpo-include', 'mdpo-enable') for p in PLACES for co in (True, False)] + [
    dict(kind='doc', docs=[[['cmd', a], ['cmd', b], ['cmd', c], ['p', 'x'], ['p', 'y']]], codes=False, msgstr='d')
    for a in ('mdpo-context one', 'mdpo-translator some') for b in ('mdpo-context two', 'mdpo-translator other', 'mdpo-disable')
    for c in ('mdpo-include z', 'mdpo-enable-next-block', 'mdpo-disable-next-line')] + [
    dict(kind='doc', docs=[[['ul', [['one', ['cmd', a], ['ul', [['two']], False]], ['three', ['cmd', 'mdpo-include four']],
                                    ['five']], l], ['p', 'seven']]], codes=False, msgstr='')
    for a in ('mdpo-context one', 'mdpo-translator x') for l in (True, False)] + [
    dict(kind='html', pieces=[['cmd', 'mdpo-context one'], ['p', ''], ['cmd', c], ['p', 'x'], ['h2', 'y']])
    for c in ('mdpo-enable', 'mdpo-disable-next-block', 'mdpo-context two', 'mdpo-context')]

if __name__ == '__main__':
    main(CORPUS, gen, run, 'documents of nested blocks with contexts, comments and includes between them, and HTML;'
         ' messages of a reference semantics')
