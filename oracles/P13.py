"""P13: selection of the inputs."""
import glob
import os

from common import *
from mdpo.io import filter_paths, to_file_content_if_is_file, to_files_or_content
from mdpo.md2po import Md2Po, markdown_to_pofile
from mdpo.md2po.__main__ import run as md2po_run
from mdpo.mdpo2html import MdPo2HTML
from mdpo.po import paths_or_globs_to_unique_pofiles
from mdpo.po2md import Po2Md

RULE = 'a case is non trivial if it has files, paths or patterns'
FILES = ['a.md', 'b.md', 'foo1.md', 'foo[1].md', 'x/a.md', 'x/b.md', 'x/y/a.md', 'y/c.md', 'y/x/a.md', '.h.md',
         'x.md/in.md', 'Z.md', 'é.md', 'a', 'x/y/README', 'sp ace.md', 'a.md.bak', 'y/a.mdx']
GLOBS = ['*.md', '*/*.md', '**/*.md', 'x/*', 'y/*.md', '[ab].md', 'foo[1].md', 'foo*.md', 'none*.md', 'a.md', 'x/y/a.md',
         './*.md', '?.md', 'x', '[!a].md', '*', '*/*/*.md', 'x//*.md', '{D}/*.md', '{D}/x/*.md']
IGNORE = ['a.md', 'x', 'y', 'x/y', 'b.md', 'x/a.md', './a.md', '.', '', '{D}', '{D}/x', 'README', 'nothing', 'md', 'a', 'y/',
          'X', 'x/', 'foo1.md', 'x.md', 'c', 'z.md']
CONTENT = ['Some text', '# Title', 'a.mdx?', '[s-m]', '[!', 'text *with* glob [x', '[link](u)', '', '\\*', 'a\x00b', 'x' * 300,
           'line\nother', '**bold**', '[z-a] text', 'a.md\n', ' a.md', '[]', '[!]']


def ignored(p, ignore):
    parent = p[:p.rindex('/')] if '/' in p else ''
    return (p in ignore or os.path.basename(p) in ignore or os.path.basename(os.path.dirname(p)) in ignore
            or parent in ignore)


def tree(files):
    for i, f in enumerate(files):
        try:
            write(f, f'message {i}\n')
        except OSError:
            pass


def run(case):
    with scratch() as D:
        sub = lambda l: [x.replace('{D}', D) for x in l]
        k = case['kind']
        ignore = sub(case.get('ignore', []))
        ign = {'list': list, 'set': set, 'tuple': tuple, 'frozenset': frozenset}[case.get('as', 'list')](ignore)
        if k == 'filter':
            paths = sub(case['paths'])
            want = sorted(p for p in paths if not ignored(p, ignore))
            equal(list(filter_paths(list(paths), ignore_paths=ign)), want, f'filter of {paths} without {ignore}')
            equal(list(filter_paths(iter(paths), ignore_paths=ign)), want, 'filter of an iterator')
            if not ignore:
                equal(list(filter_paths(paths)), sorted(paths), 'filter without ignored paths')
            return
        files = case.get('files', FILES)
        tree(files)
        texts = {f: read(f)[:-1] for f in files if os.path.isfile(f)}
        if k == 'input':
            v = case['value'].replace('{D}', D)
            try:
                m = glob.glob(v)
            except Exception:
                m = []
            got = to_files_or_content(v)
            equal(got[0], bool(m), f'is {v!r} a glob of files')
            if m:
                equal(sorted(got[1]), sorted(m), f'files of {v!r}')
            else:
                equal(got[1], v, 'content')
            isf = '\x00' not in v and os.path.isfile(v)
            equal(to_file_content_if_is_file(v), read(v) if isf else v, f'single input {v!r}')
            out = Po2Md([]).translate(v)
            equal(out.strip() == texts_of(v, texts) if isf else True, True, f'po2md input {v!r}: {out!r}')
            return
        if k == 'extract':
            g = case['globs']
            gs = g.replace('{D}', D) if isinstance(g, str) else sub(g)
            if isinstance(gs, str):
                paths = glob.glob(gs)
                if not paths:
                    m = Md2Po(gs, location=False)
                    expect(not hasattr(m, 'filepaths'), f'{gs!r} is content')
                    return
            else:
                paths = [p for x in gs for p in glob.glob(x)]
            want = sorted(p for p in paths if not ignored(p, ignore))
            if any(not os.path.isfile(p) for p in want):
                return
            m = Md2Po(gs, ignore=ign)
            equal(list(m.filepaths), want, f'files selected by {gs} without {ignore}')
            seen = []
            m2 = Md2Po(gs, ignore=ign, events={'text': lambda self, b, t: seen.append(
                (self._current_markdown_filepath, t))})
            po = m2.extract()
            equal(seen, [(p, read(p)[:-1]) for p in want], 'files read, in order')
            by = {}
            for p in want:
                if p not in by.setdefault(read(p)[:-1], []):
                    by[read(p)[:-1]].append(p)
            po2 = markdown_to_pofile(gs, ignore=ign)
            equal([e.msgid for e in po2], list(by), 'messages of the files')
            if case.get('cli'):
                args = [*([gs] if isinstance(gs, str) else gs), *[y for x in ignore for y in ('-i', x)]]
                r, code, out, err = cli(md2po_run, args)
                equal(code, 0, f'exit code of md2po {args}')
                if len(gs) > 1 or isinstance(gs, str):
                    equal([e.msgid for e in r[0]], list(by), f'messages of md2po {args}')
            return
        if k == 'po':
            for i, f in enumerate(case['files']):
                write(f, f'msgid "m{i}"\nmsgstr "t"\n')
            gs = sub(case['globs'])
            want = []
            for x in gs:
                for p in sorted(p for p in glob.glob(x) if not ignored(p, ignore)):
                    if p not in want:
                        want.append(p)
            if any(not os.path.isfile(p) for p in want):
                return
            arg = gs[0] if len(gs) == 1 and case.get('str') else gs
            got = [[e.msgid for e in po] for po in paths_or_globs_to_unique_pofiles(arg, ign)]
            equal(got, [[e.msgid for e in __import__('polib').pofile(p)] for p in want], f'PO files of {gs}')
            for cls in Po2Md, MdPo2HTML:
                t = cls(arg, ignore=ign)
                equal([po.fpath for po in t.pofiles], want, f'PO files of {cls.__name__}')
            return
        if k == 'html':
            v = case['value']
            write('in.html', '<p>message</p>')
            t = MdPo2HTML([]).translate(v)
            equal(t, '<p>message</p>' if v == 'in.html' else v, f'html input {v!r}')


def texts_of(v, texts):
    return read(v).strip()


PATHS = ['a.md', 'x/a.md', 'x/y/a.md', '/r/x/a.md', 'b', 'x/b', './a.md', 'a/x', '/a.md', 'x//a.md', 'X/a.md', '{D}/a.md',
         '{D}/x/a.md', 'c/x/d.md', 'a.md/z', 'x.md', 'y/x/z/b', '']
CORPUS = [
    dict(kind='filter', paths=PATHS, ignore=[]),
    *[dict(kind='filter', paths=PATHS, ignore=[i]) for i in IGNORE],
    dict(kind='filter', paths=PATHS, ignore=['a.md', 'x/y']), dict(kind='filter', paths=['b', 'a', 'b', 'a'], ignore=[]),
    dict(kind='filter', paths=['b', 'a', 'b', 'x/a', 'x/a'], ignore=['x/'], **{'as': 'set'}),
    *[dict(kind='input', value=v) for v in CONTENT + GLOBS],
    *[dict(kind='extract', globs=g, ignore=[]) for g in GLOBS],
    *[dict(kind='extract', globs=[g], ignore=[]) for g in GLOBS],
    *[dict(kind='extract', globs='*/*.md', ignore=[i], cli=True) for i in IGNORE if i],
    dict(kind='extract', globs=['x/*.md', '*.md', 'x/a.md'], ignore=['b.md'], cli=True),
    dict(kind='extract', globs=['a.md', 'a.md'], ignore=[]), dict(kind='extract', globs=['none', 'a.md'], ignore=[]),
    dict(kind='extract', globs='*.md', ignore=['foo1.md']), dict(kind='extract', globs='x/*.md', ignore=['x']),
    dict(kind='po', files=['a.po', 'x/a.po', 'x/b.po', 'foo[1].po', 'foo1.po'], globs=['*.po', 'x/*.po', '*.po'], ignore=[]),
    dict(kind='po', files=['a.po', 'x/a.po', 'x/b.po'], globs=['x/b.po', '*/*.po', '*.po'], ignore=['a.po']),
    dict(kind='po', files=['a.po', 'b.po'], globs=['*.po'], ignore=[], str=True),
    dict(kind='po', files=['b.po', 'a.po', 'x/c.po'], globs=['b.po', 'a.po', '*/c.po', 'a.po'], ignore=['x']),
    dict(kind='html', value='in.html'), dict(kind='html', value='<p>other</p>'), dict(kind='html', value='*.html'),
]


def gen(rng, k):
    ignore = rng.sample(IGNORE, rng.choice([0, 0, 1, 1, 2, 3]))
    as_ = rng.choice(['list', 'set', 'tuple', 'frozenset'])
    r = rng.random()
    if r < .4:
        ps = ['/'.join(rng.choice(['x', 'y', 'a.md', 'b.md', 'a', 'md', '', '.', 'README', 'X']) for _ in
                       range(rng.randint(1, 4))) for _ in range(rng.randint(0, 8))]
        ig = ignore + rng.sample(ps, min(len(ps), rng.choice([0, 0, 1])))
        return dict(kind='filter', paths=ps, ignore=ig, **{'as': as_})
    if r < .5:
        return dict(kind='input', value=rng.choice(GLOBS + CONTENT) if rng.random() < .6 else ''.join(
            rng.choice(['a', '.md', '*', '[', ']', '!', 'x', '/', '-', 'z', '?', ' ', '\n']) for _ in range(rng.randint(0, 8))))
    files = rng.sample(FILES, rng.randint(1, len(FILES)))
    gs = rng.sample(GLOBS, rng.randint(1, 3))
    if r < .8:
        return dict(kind='extract', files=files, globs=rng.choice(GLOBS) if rng.random() < .5 else gs, ignore=ignore,
                    **{'as': as_})
    return dict(kind='po', files=[f.replace('.md', '.po') for f in files if f != 'x.md/in.md'],
                globs=[g.replace('.md', '.po') for g in gs], ignore=[i.replace('.md', '.po') for i in ignore],
                **{'as': as_})


if __name__ == '__main__':
    main(CORPUS, gen, run, RULE, nontrivial=lambda c: len(json.dumps(c)) > 40)
