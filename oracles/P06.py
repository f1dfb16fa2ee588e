"""P06: translations of messages against a reference lookup over the entries of the PO files."""
from common import *
import glob
import polib
import mdpo.po
from mdpo.io import filter_paths
from mdpo.mdpo2html import MdPo2HTML
from mdpo.po2md import Po2Md
from P01 import E, entry

TEXTS = ['hello', 'Hello', 'hello you', 'bye', 'bye ', 'hello ', 'hello.', '**hello**', '*bye* now', '`hello` a']
TR = ['', '', 'hola', 'adios', 'hola tu', '**hola**', 'x `y` z']
CTX = [None, None, None, 'x', 'y', 'X']
HTML = [(r'**', 'strong'), ('*', 'em'), ('`', 'code')]


def html(text):
    for mark, tag in HTML:
        parts = text.split(mark)
        text = ''.join(p + (f'<{tag}>' if i % 2 == 0 else f'</{tag}>') if i < len(parts) - 1 else p for i, p in enumerate(parts))
    return text


def reference(files):
    m = {}
    for f in files:
        for e in polib.pofile(f):
            m[e.msgctxt or None, e.msgid] = e.msgstr
    return m


def run(case):
    with scratch():
        for name, es in case['files'].items():
            write(name, '#\nmsgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n' + '\n'.join(
                str(entry(e)) for e in es))
        want_paths = []
        for g in case['globs']:
            for p in filter_paths(glob.glob(g), ignore_paths=case['ignore']):
                if p not in want_paths:
                    want_paths.append(p)
        read = []
        real = polib.pofile

        def logged(path, *a, **k):
            read.append(path)
            return real(path, *a, **k)
        globs = case['globs'][0] if case['single'] else case['globs']
        polib.pofile = logged
        try:
            tool = Po2Md(globs, ignore=case['ignore'], wrapwidth=0)
            files, read[:] = list(read), []
            web = MdPo2HTML(globs, ignore=case['ignore'])
            files2 = list(read)
        finally:
            polib.pofile = real
        if case['single']:
            want_paths = filter_paths(glob.glob(globs), ignore_paths=case['ignore'])
        equal(files, want_paths, 'PO files read by po2md')
        equal(files2, want_paths, 'PO files read by mdpo2html')
        m = reference(want_paths)
        want = [m.get((c, t)) or t for c, t in case['msgs']]
        doc = '\n\n'.join((f'<!-- mdpo-context {c} -->\n\n' if c else '') + t for c, t in case['msgs']) + '\n'
        out = tool.translate('\n' + doc)
        equal([x.strip('\n') for x in out.split('\n\n') if x.strip()], want, 'po2md')
        equal([e.msgid for e in tool.translated_entries], [t for c, t in case['msgs'] if (c, t) in m], 'entries used')
        page = '\n'.join((f'<!-- mdpo-context {c} -->\n' if c else '') + f'<p>{html(t)}</p>' for c, t in case['msgs']) + '\n'
        got = web.translate(page)
        equal([x for x in got.split('\n') if x.strip()], [f'<p>{html(w)}</p>' for w in want], 'mdpo2html')
        # the same messages with spaces around the text of the element: another text, so only its own entries count
        page = '\n'.join((f'<!-- mdpo-context {c} -->\n' if c else '') + f'<p>{html(t)} </p>' for c, t in case['msgs']) + '\n'
        got = MdPo2HTML(globs, ignore=case['ignore']).translate(page)
        want = [m.get((c, t + ' ')) or t + ' ' for c, t in case['msgs']]
        equal([x.replace(' </p>', '</p>') for x in got.split('\n') if x.strip()], [f'<p>{html(w.strip())}</p>' for w in want], 'mdpo2html, with a space at the end')


def C(files, msgs, globs=('*.po',), ignore=(), single=False):
    return dict(files=files, msgs=[list(m) for m in msgs], globs=list(globs), ignore=list(ignore), single=single)


CORPUS = [
    C({'a.po': [E('hello', 'hola')]}, [(None, 'hello'), ('x', 'hello'), (None, 'Hello')]),
    C({'a.po': [E('hello', 'hola', 'x'), E('hello', 'adios', 'y'), E('hello', '')]}, [(None, 'hello'), ('x', 'hello'), ('y', 'hello'), ('X', 'hello')]),
    C({'a.po': [E('hello', 'hola'), E('hello', 'adios')], 'b.po': [E('hello', 'x `y` z')]}, [(None, 'hello')], ['b.po', 'a.po', '*.po']),
    C({'a.po': [E('hello', 'hola')], 'b.po': [E('hello', '')]}, [(None, 'hello')]),
    C({'a.po': [E('hello', 'hola')], 'b.po': [E('hello', 'adios', fuzzy=True)], 'c.po': [E('hello', 'hola tu')]}, [(None, 'hello')], ignore=['c.po']),
    C({'a.po': [E('hello', 'hola', 'x')], 'b.po': [E('bye', 'adios', 'x'), E('hello', '', 'x')]}, [('x', 'bye'), ('x', 'hello')], ['*.po'], [], True),
    C({'a.po': [E('**hello**', '**hola**', 'x'), E('`hello` a', 'hola')]}, [('x', '**hello**'), (None, '**hello**'), (None, '`hello` a')]),
    C({'d/a.po': [E('hello', 'hola')], 'a.po': [E('hello', 'adios')]}, [(None, 'hello')], ['*/*.po', '*.po', 'd/a.po']),
    C({'a.po': [E('hello', 'hola', '')]}, [(None, 'hello')]),
    C({'a.po': [E('hello', 'hola'), E('hello', 'adios', obsolete=True)]}, [(None, 'hello')]),
]


def gen(rng, k):
    names = rng.sample(['a.po', 'b.po', 'c.po', 'd/a.po', 'd/e.po'], rng.randint(1, 4))
    files = {n: sorted((E(rng.choice(TEXTS), rng.choice(TR), rng.choice(CTX), rng.random() < .15, rng.random() < .3)
                        for _ in range(rng.randint(0, 6))), key=lambda e: e['obsolete']) for n in names}
    globs = [rng.choice(['*.po', 'a.po', 'b.po', 'd/*.po', '*/a.po', '[ab].po', 'none.po']) for _ in range(rng.randint(1, 3))]
    msgs = [(rng.choice(CTX), rng.choice([t for t in TEXTS if t == t.strip()])) for _ in range(rng.randint(1, 6))]
    return C(files, msgs, globs, rng.sample(['a.po', 'b.po', 'd'], rng.choice([0, 0, 1])), rng.random() < .2)


if __name__ == '__main__':
    main(CORPUS, gen, run, 'PO files, globs and messages; distinct = different cases', shrink=lines_shrink('msgs'))
