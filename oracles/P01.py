"""P01: extraction over PO files against a reference of which translation a message takes."""
from common import *
import polib
from mdpo.md2po import Md2Po

TEXTS = ['a', 'b', 'a b', 'A', 'a.', 'c']
CTX = [None, None, 'x', 'y', 'X']


def entry(e):
    p = polib.POEntry(msgid=e['id'], msgctxt=e['ctx'], obsolete=e['obsolete'], comment=e['comment'], tcomment=e['tcomment'],
                      flags=(['python-format'] if e['flag'] else []) + (['fuzzy'] if e['fuzzy'] else []),
                      occurrences=[('f.md', str(n)) for n in e['occ']])
    if e['plural']:
        p.msgid_plural, p.msgstr_plural = e['plural'], {0: e['str'], 1: e['str']}
    else:
        p.msgstr = e['str']
    return p


def snap(e):
    return (e.msgid, e.msgctxt, e.msgstr, e.msgid_plural, dict(e.msgstr_plural), list(e.flags), e.comment, e.tcomment,
            list(e.occurrences), bool(e.obsolete))


def document(msgs):
    out = []
    for m in msgs:
        if m['ctx']:
            out.append(f'<!-- mdpo-context {m["ctx"]} -->')
        if m['comment']:
            out.append(f'<!-- mdpo-translator {m["comment"]} -->')
        out.append(m['id'])
    return '\n\n'.join(out) + '\n'


def run(case):
    with scratch():
        names = []
        for i, d in enumerate(case['docs']):
            write(f'{i}.md', document(d) + (f'\n[l]: /u{i}\n\n[l]\n' if case['links'] else ''))
            names.append(f'{i}.md')
        msgs = []
        for i, d in enumerate(case['docs']):
            msgs += [(m['id'], m['ctx'], case['msgstr'], False) for m in d]
            if case['links']:
                msgs += [('[l]', None, case['msgstr'], False), (f'[l]: /u{i}', None, f'[l]: /u{i}', True)]
        write('m.po', '#\nmsgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n' + '\n'.join(
            str(entry(e)) for e in case['entries']))
        there = polib.pofile('m.po')
        before = [snap(e) for e in there]
        tool = Md2Po(names, msgstr=case['msgstr'], ignore_msgids=case['ignore'], location=case['location'],
                     **case['mode'])
        po = tool.extract('m.po')
        model = [(x[0], x[1], x[2], x[3], 'fuzzy' in x[5], x[9], x) for x in before]
        want = []
        for mid, ctx, default, fuzzy in msgs:
            if mid in case['ignore']:
                continue
            first = next((m for m in model if m[0] == mid and (m[1] or '') == (ctx or '') and not m[3]), None)
            if first is not None and first[2]:
                default, fuzzy = first[2], first[4]
            want.append((mid, ctx, default, fuzzy))
            if not any(m[0] == mid and m[1] == ctx and not m[5] for m in model):
                model.append((mid, ctx, default, None, fuzzy, False, None))
        equal([(e.msgid, e.msgctxt, e.msgstr, e.fuzzy) for e in tool.found_entries], want, 'recorded messages')
        for e in tool.found_entries:
            expect(not e.obsolete and not e.msgid_plural and not e.msgstr_plural, 'plain active messages', str(e))
        got = [snap(e) for e in po]
        n = len(before)
        if case['mode'].get('mark_not_found_as_obsolete', True) and case['mode'].get('preserve_not_found', True):
            # surviving entries only
            i = 0
            for b in before:
                if i < len(got) and got[i][:9] == b[:9]:
                    i += 1
                else:
                    expect(b[9], 'an active entry changed', b, got)
            appended = got[i:]
        elif not case['mode'].get('preserve_not_found', True):
            i = 0
            for b in before:
                if i < len(got) and got[i] == b:
                    i += 1
            appended = got[i:]
        else:
            equal(got[:n], before, 'entries that were there')
            appended = got[n:]
        new = [m for m in model if m[6] is None]
        if any(m[1] and not m[5] and sum(not q[5] and q[:2] == m[:2] for q in model) > 1 for m in model):
            return          # malformed: active entries with the same text and context
        equal([(e[0], e[1], e[2], 'fuzzy' in e[5], e[9]) for e in appended], [(m[0], m[1], m[2], m[4], False) for m in new],
              'appended messages')


def E(id, str='', ctx=None, obsolete=False, fuzzy=False, plural='', comment='', tcomment='', flag=False, occ=()):
    return dict(id=id, str=str, ctx=ctx, obsolete=obsolete, fuzzy=fuzzy, plural=plural, comment=comment, tcomment=tcomment,
                flag=flag, occ=list(occ))


def M(id, ctx=None, comment=None):
    return dict(id=id, ctx=ctx, comment=comment)


def C(entries, docs, msgstr='', ignore=(), links=False, mode=None, location=False):
    return dict(entries=entries, docs=docs, msgstr=msgstr, ignore=list(ignore), links=links, location=location,
                mode={'mark_not_found_as_obsolete': False} if mode is None else mode)


CORPUS = [
    C([E('a', 'T')], [[M('a')]]),
    C([E('a', 'T', obsolete=True)], [[M('a')]]),
    C([E('a', 'T', obsolete=True, fuzzy=True)], [[M('a')]], msgstr='D'),
    C([E('a', 'T', fuzzy=True, flag=True)], [[M('a'), M('a')]]),
    C([E('a', 'T', ctx='x')], [[M('a'), M('a', 'x')]]),
    C([E('a', 'T')], [[M('a', 'x')]]),
    C([E('a', '', fuzzy=True)], [[M('a')]], msgstr='D'),
    C([E('a', '', obsolete=True), E('a', 'T')], [[M('a')]]),
    C([E('a', '', obsolete=True), E('a', 'T', obsolete=True)], [[M('a')]], msgstr='D'),
    C([E('a', 'T', plural='as')], [[M('a')]], msgstr='D'),
    C([E('a', 'T', plural='as'), E('a', 'U', obsolete=True)], [[M('a')]]),
    C([E('a', 'T', occ=[3], comment='k', tcomment='t')], [[M('a', None, 'note'), M('b', 'y', 'n2')]], location=True),
    C([E('[l]: /u0', '[l]: /v')], [[M('a')]], links=True),
    C([E('[l]: /u0', '[l]: /v', fuzzy=True, obsolete=True)], [[M('a')], [M('a')]], links=True, ignore=['a']),
    C([], [[M('a'), M('a', 'x'), M('a')], [M('a')]], msgstr='D', ignore=['b']),
    C([E('a', 'T'), E('b', 'U')], [[M('a')]], mode={}),
    C([E('a', 'T'), E('b', 'U')], [[M('a')]], mode={'preserve_not_found': False}),
    C([E('a', 'T', obsolete=True), E('b', 'U', obsolete=True)], [[M('a')]], mode={}),
    C([E('a', 'T', obsolete=True)], [[M('a', 'x')]], mode={}),
]


def gen(rng, k):
    es, seen = [], set()
    for _ in range(rng.randint(0, 6)):
        e = E(rng.choice(TEXTS), rng.choice(['', '', 'T1', 'T2', 'T3']), rng.choice(CTX), rng.random() < .4, rng.random() < .4,
              rng.choice(['', '', '', 'ps']), rng.choice(['', 'c']), rng.choice(['', 'tc']), rng.random() < .3,
              rng.sample([1, 2, 3], rng.randint(0, 2)))
        es.append(e)
    es.sort(key=lambda e: e['obsolete'])
    if rng.random() < .3:
        rng.shuffle(es)
    mode = rng.choice([{'mark_not_found_as_obsolete': False}] * 4 + [{}, {'preserve_not_found': False}])
    if mode.get('mark_not_found_as_obsolete', True):
        keep = []
        for e in es:          # entries with different texts, so that the survivors are told apart
            if (e['id']) not in seen:
                seen.add(e['id'])
                keep.append(e)
        es = keep
    docs = [[M(rng.choice(TEXTS), rng.choice(CTX), rng.choice([None, None, 'note'])) for _ in range(rng.randint(0, 5))]
            for _ in range(rng.randint(1, 3))]
    return C(es, docs, rng.choice(['', '', 'D']), rng.sample(TEXTS, rng.randint(0, 2)) if rng.random() < .4 else [],
             rng.random() < .3, mode, rng.random() < .3)


if __name__ == '__main__':
    main(CORPUS, gen, run, 'a set of PO entries and documents; distinct = different cases', shrink=lines_shrink('entries'))
