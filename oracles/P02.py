"""P02: reconciliation of PO files against a reference of which entries stay, are marked or are removed."""
from common import *
import polib
from mdpo.md2po import Md2Po
from mdpo.po import mark_not_found_entries_as_obsoletes, remove_not_found_entries
from P01 import CTX, E, M, TEXTS, document, entry, snap

MODES = {'mark': {}, 'remove': {'preserve_not_found': False}, 'keep': {'mark_not_found_as_obsolete': False},
         'remove2': {'preserve_not_found': False, 'mark_not_found_as_obsolete': False}}


def key(e):
    return e.msgid, e.msgctxt or '', e.msgid_plural or ''


def reference(before, found, mode):
    """Entries (snapshots) after the reconciliation of a list of entries."""
    keys = {key(e) for e in found}
    full = {(*key(e), e.msgstr) for e in found}
    out = []
    for e in before:
        s = snap(e)
        if mode == 'keep':
            out.append(s)
        elif mode == 'mark':
            if e.obsolete:
                if (*key(e), e.msgstr) not in full:
                    out.append(s)
            else:
                out.append(s[:9] + (key(e) not in keys,))
        elif e.obsolete:
            if (*key(e), e.msgstr) in full:
                out.append(s)
        elif key(e) in keys:
            out.append(s)
    return out


def run(case):
    mode = case['mode']
    with scratch():
        if case['api']:
            po = polib.POFile()
            for e in case['entries']:
                po.append(entry(e))
            found = [entry(dict(e, obsolete=False, plural='')) for e in case['found']]
            for i in case['alias']:
                if i < len(found):
                    po.append(found[i])
            want = reference(list(po), found, mode)
            fsnap = [snap(f) for f in found]
            if mode == 'mark':
                mark_not_found_entries_as_obsoletes(po, found)
            elif mode != 'keep':
                remove_not_found_entries(po, found)
            equal([snap(e) for e in po], want, 'entries')
            equal([snap(f) for f in found], fsnap, 'found messages')
            return
        names = []
        for i, d in enumerate(case['docs']):
            write(f'{i}.md', document(d))
            names.append(f'{i}.md')
        write('m.po', '#\nmsgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n' + '\n'.join(
            str(entry(e)) for e in case['entries']))
        before = list(polib.pofile('m.po'))
        tool = Md2Po(names, msgstr=case['msgstr'], location=case['location'], **MODES[mode])
        po = tool.extract('m.po', save=case['save'])
        want = reference(before, tool.found_entries, mode[:6])
        got = [snap(e) for e in po]
        equal(got[:len(want)], want, 'entries that were there')
        keys = {key(e) for e in tool.found_entries}
        for g in got[len(want):]:
            expect((g[0], g[1] or '', g[3] or '') in keys and not g[9], 'appended entries are extracted', g)
        if case['save']:
            saved = [snap(e)[:2] + snap(e)[2:3] + (bool(e.obsolete),) for e in polib.pofile('m.po')]
            equal(sorted(map(repr, saved)), sorted(repr((g[0], g[1], g[2], g[9])) for g in got), 'saved file')


def C(entries, docs=(), mode='mark', found=None, alias=(), msgstr='', location=False, save=False):
    return dict(entries=entries, docs=list(docs), mode=mode, api=found is not None, found=found or [], alias=list(alias),
                msgstr=msgstr, location=location, save=save)


_ES = [E('a', 'T'), E('b', 'U', obsolete=True), E('b', 'V', obsolete=True), E('c', '', ctx='x'), E('a', 'T', obsolete=True),
       E('a', 'W', obsolete=True), E('A', 'T', fuzzy=True, comment='k', tcomment='t', occ=[1]), E('a', 'T', plural='as')]
CORPUS = [C(_ES, [[M('a'), M('b')]], m, save=s) for m in MODES for s in (False, True)] + \
    [C(_ES, mode=m, found=[E('a', 'T'), E('b', 'V')], alias=a) for m in ('mark', 'remove') for a in ([], [0], [0, 1])] + [
    C([E('a', 'T'), E('a', 'T')], mode=m, found=f) for m in ('mark', 'remove') for f in ([E('a', 'T')], [E('b')])] + [
    C([E('a', 'T', obsolete=True)] * 3 + [E('b', 'x', obsolete=True)], mode=m, found=[E('a', 'T', occ=[2])])
    for m in ('mark', 'remove')] + [C([E('a', 'T', ctx='x'), E('a', 'T', ctx='x', obsolete=True)], mode=m, found=f)
                                    for m in ('mark', 'remove') for f in ([E('a', 'T')], [E('a', 'T', ctx='x')], [])]


def entries(rng, n):
    ids = rng.sample(TEXTS, 3)
    return [E(rng.choice(ids), rng.choice(['', '', 'T1', 'T2']), rng.choice([None, None, 'x', 'y']), rng.random() < .5,
              rng.random() < .3, rng.choice(['', '', '', 'ps']), rng.choice(['', 'c']), rng.choice(['', 'tc']),
              rng.random() < .3, rng.sample([1, 2], rng.randint(0, 1))) for _ in range(n)]


def gen(rng, k):
    es = entries(rng, rng.randint(0, 8))
    if rng.random() < .6:
        f = [dict(rng.choice(es), occ=rng.sample([1, 3], 1)) if es and rng.random() < .6 else E(
            rng.choice(TEXTS), rng.choice(['', 'T1', 'T2']), rng.choice(CTX)) for _ in range(rng.randint(0, 6))]
        return C(es, mode=rng.choice(['mark', 'remove']), found=f, alias=rng.sample(range(len(f)), rng.randint(0, len(f))))
    es.sort(key=lambda e: e['obsolete'])
    docs = [[M(rng.choice(TEXTS), rng.choice(CTX)) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(1, 2))]
    return C(es, docs, rng.choice(list(MODES)), msgstr=rng.choice(['', '', 'T1']), location=rng.random() < .3,
             save=rng.random() < .3)


if __name__ == '__main__':
    main(CORPUS, gen, run, 'a set of PO entries, of messages and a mode; distinct = different cases', shrink=lines_shrink('entries'))
