"""P11: delimiters of code spans."""
import re

from common import *
from mdpo.md2po import Md2Po
from mdpo.po2md import Po2Md
from mdpo.text import min_not_max_chars_in_a_row

RULE = 'a case is non trivial if its text has the delimiter character'


def shortest(char, text, default=1):
    runs = {len(m) for m in re.findall(re.escape(char) + '+', text)}
    if not runs:
        return default
    n = 1
    while n in runs:
        n += 1
    return n


def wrap(c, e, t):
    return c * shortest(c, t) + t + e * shortest(c, t)


def source(t):
    """Code span of the text in Markdown, with a delimiter longer than necessary."""
    d = '`' * (max([len(m) for m in re.findall('`+', t)] or [0]) + 1)
    return d + t + d


def run(case):
    if case['kind'] == 'min':
        a = case['char'], case['text']
        if 'default' in case:
            equal(min_not_max_chars_in_a_row(*a, default=case['default']), shortest(*a, case['default']),
                  f'shortest delimiter for {a}')
        else:
            equal(min_not_max_chars_in_a_row(*a), shortest(*a), f'shortest delimiter for {a}')
        return
    c, e = case.get('start', '`'), case.get('end', '`')
    src = want = ''
    for kind, t in case['parts']:
        # text, code, or link with a label made of parts
        if kind == 'link':
            s = w = ''
            for k, x in t:
                s += source(x) if k == 'code' else x
                w += wrap(c, e, x.replace('\n', ' ')) if k == 'code' else x
            src += f'[{s}](u)'
            want += f'[{w}](u)'
        elif kind == 'code':
            src += source(t)
            want += wrap(c, e, t.replace('\n', ' '))
        else:
            src += t
            want += t
    pre, post = case['around']
    kw = {'code_start_string': c} if 'start' in case else {}
    if 'end' in case:
        kw['code_end_string'] = e
    with scratch():
        doc = pre + src + post + '\n'
        m = Md2Po(doc, location=False, **kw)
        ids = [x.msgid for x in m.extract()]
        expect(want in ids, f'the message of {doc!r} is {want!r}', ids)
        write('t.po', '#\nmsgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n')
        out = Po2Md(['t.po'], wrapwidth=0, **kw).translate(doc)
        expect(want in out, f'the translation of {doc!r} has {want!r}', out)
        # a translation is found
        import polib
        po = polib.POFile()
        po.append(polib.POEntry(msgid=want, msgstr='FOUND'))
        po.save('u.po')
        out = Po2Md(['u.po'], wrapwidth=0, **kw).translate(doc)
        expect('FOUND' in out, f'the text looked up for {doc!r} is {want!r}', out)


AROUND = [['', ''], ['# ', ''], ['- ', ''], ['> ', ''], ['| h |\n| --- |\n| ', ' |'], ['1. ', '\n2. other'],
          ['para\n\n', '\n\nend']]
CORPUS = [
    *[dict(kind='min', char='`', text=t) for t in
      ('', 'a', '`', '``', '```', '` ``', 'a`b``c````', '``` ` ````', '`` ```', 'x` `` ``` ````', '`a``b```', '````a`',
       'a``', '``a')],
    dict(kind='min', char='c', text='c cc cccc'), dict(kind='min', char='x', text='abc', default=5),
    dict(kind='min', char='x', text='', default=0), dict(kind='min', char='x', text='xx', default=5),
    *[dict(kind='doc', around=a, parts=[['text', 'one '], ['code', t], ['text', ' two']]) for a in AROUND for t in
      ('a', 'a`b', 'a``b', 'a`b``c', 'a ``` b', 'a`b``c```d', 'a`b`c``d', 'a````b`c')],
    *[dict(kind='doc', around=a, parts=[['text', 'one '], ['link', [['code', t], ['text', ' z']]], ['text', ' two']])
      for a in AROUND for t in ('a', 'a`b', 'a``b', 'a`b``c', 'a```b`c')],
    dict(kind='doc', around=['', ''], parts=[['code', 'a`b'], ['text', ' '], ['code', 'c'], ['text', ' '],
                                             ['code', 'd``e`f'], ['text', ' '], ['code', 'g``h']]),
    dict(kind='doc', around=['', ''], parts=[['text', 'x '], ['link', [['code', 'c``d'], ['text', ' y '],
                                                                      ['code', 'e`f']]], ['text', ' '],
                                             ['code', 'g`h'], ['text', ' t']]),
    dict(kind='doc', around=['', ''], parts=[['text', 'x '], ['code', 'a`\nb``c'], ['text', ' t']]),
    dict(kind='doc', around=['', ''], parts=[['text', 'x '], ['code', 'a&amp;`b&lt;c'], ['text', ' t']]),
    dict(kind='doc', around=['', ''], start='~', end='~', parts=[['text', 'x '], ['code', 'a~b~~c'], ['text', ' t']]),
    dict(kind='doc', around=['', ''], start='$', end='%', parts=[['text', 'x '], ['code', 'a$b%%c`d'], ['text', ' t']]),
]


def code_text(rng, char='`'):
    while True:
        t = ''.join(rng.choice(['a', 'b ', 'cd', char, char * 2, char * 3, '-', char * rng.randint(1, 6), '"', '\\'])
                    for _ in range(rng.randint(1, 7)))
        t = re.sub(' +', ' ', t)
        if t == t.strip() and t and not t.startswith('`') and not t.endswith('`') and t[0] not in '-' and '\\' not in t:
            return t


def gen(rng, k):
    if k % 3 == 0:
        c = rng.choice('`~x*')
        t = ''.join(rng.choice([c, c * rng.randint(1, 9), 'a', ' ', '\n', '`', 'é']) for _ in range(rng.randint(0, 14)))
        case = dict(kind='min', char=c, text=t)
        if rng.random() < .3:
            case['default'] = rng.randint(0, 9)
        return case
    parts = [['text', 'one ']]
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .35:
            label = [['text', 'l ']] if rng.random() < .5 else []
            for _ in range(rng.randint(1, 3)):
                label += [['code', code_text(rng)], ['text', rng.choice([' y ', ' z'])]]
            parts.append(['link', label[:-1]])
        else:
            parts.append(['code', code_text(rng)])
        parts.append(['text', rng.choice([' mid ', ' and ', ' '])])
    parts.append(['text', 'end'])
    return dict(kind='doc', around=rng.choice(AROUND), parts=parts)


if __name__ == '__main__':
    main(CORPUS, gen, run, RULE, nontrivial=lambda c: '`' in json.dumps(c))
