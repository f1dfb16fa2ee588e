"""P16: the combined tool processes every file for every language once, as the two tools would do one after the other."""
import glob
import os

from common import *
import mdpo.md2po as m_md2po
import mdpo.po2md as m_po2md
from mdpo.md2po2md import markdown_to_pofile_to_markdown
from mdpo.md2po2md.__main__ import run as cli_run
from mdpo.po import (check_empty_msgstrs_in_filepaths, check_fuzzy_entries_in_filepaths,
                     check_obsolete_entries_in_filepaths)

RULE = 'a case is non trivial if some file is processed'
TEXTS = ['# Hi\n\nSome text that is long enough to be wrapped by the shortest widths of these cases, as it has a lot of words.\n',
         'a\n\nb\n\n```\ncode\n```\n', '<!-- ctx one -->\n\nhello\n\n<!-- off -->\n\nbye\n', '- item\n- other ~~item~~\n',
         '$a$ and [[wiki]]\n', '', 'caf\xe9\n', '| a | b |\n| - | - |\n| c | d |\n', 'c\n\n[ref]: http://x.y\n\n[ref]\n']
NAMES = ['README.md', 'a.md', 'b.md', 'foo[1].md', 'foo1.md', 'sub/c.md', 'x.y.md', 'noext', 'd.txt', 'es', 'a b.md', 'a?.md']
LANGS = [['es'], ['es', 'fr'], ['fr', 'es', 'de'], ['es_AR'], ['es', 'es'], []]
SCHEMAS = ['locale/{lang}', 'locale/{lang}/', '{lang}/{basename}', '{lang}', 'out/{lang}/{basename}',
           '{lang}/LC/{basename}_{lang}', 'o.{lang}', '{lang}-{basename}', 'l/{basename}/{lang}']
OPTS = dict(location=[True, False], debug=[False], po_wrapwidth=[78, 0, 20], md_wrapwidth=[80, 0, 30],
            po_encoding=[None, 'utf-8'], md_encoding=['utf-8', 'latin-1'], include_codeblocks=[False, True],
            command_aliases=[None, {'ctx': 'context', 'off': 'disable-next-block'}],
            extensions=[None, ['tables'], ['strikethrough', 'wikilinks'], []])
PREVIOUS = [None, 'all', 'fuzzy', 'obsolete', 'empty']


def paths(schema, lang, file):
    """Documented output paths for a file and a language."""
    base = os.path.basename(file)
    name = os.path.splitext(base)[0]
    p = schema.replace('{lang}', lang).replace('{basename}', name)
    last = os.path.basename(p)
    folder = os.path.dirname(p) if '.' in last or last == name else p
    return p, folder, base


def settle(p, base):
    """Paths once the directories exist."""
    po = os.path.join(p.rstrip('/'), base + '.po') if os.path.isdir(p) else p
    if not po.endswith('.po'):
        po += '.po'
    md = os.path.join(p.rstrip('/'), base) if os.path.isdir(p) else p
    return po, md


def snapshot():
    r = {}
    for d, _, fs in os.walk('.'):
        r[d] = None
        for f in fs:
            with open(os.path.join(d, f), 'rb') as h:
                r[os.path.join(d, f)] = h.read()
    return r


def prepare(case):
    enc = case['opts'].get('md_encoding') or 'utf-8'
    for n, t in case['files']:
        write(n, t, enc)
    if case.get('previous'):
        for f in glob.glob(case['glob']):
            for lang in case['langs']:
                p, folder, base = paths(case['schema'], lang, f)
                os.makedirs(os.path.abspath(folder), exist_ok=True)
                po, md = settle(p, base)
                text = '#\nmsgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=utf-8\\n"\n\n'
                kind = case['previous']
                text += 'msgid "hello"\nmsgstr "%s"\n\n' % ('' if kind == 'empty' else 'hola')
                if kind == 'fuzzy':
                    text += '#, fuzzy\nmsgid "a"\nmsgstr "A"\n\n'
                if kind in ('obsolete', 'all'):
                    text += '#~ msgid "old"\n#~ msgstr "viejo"\n\n'
                write(po, text)


def rerun(case):
    """The files of an earlier run, some of them lost or changed."""
    if case.get('again') is None:
        return
    for k in ('no_obsolete', 'no_fuzzy', 'no_empty_msgstr'):
        case = dict(case, **{k: False})
    reference(case)
    made = sorted(os.path.join(d, f) for d, _, fs in os.walk('.') for f in fs
                  if os.path.normpath(os.path.join(d, f)) not in [n for n, _ in case['files']])
    if made and case['again'] >= 0:
        p = made[case['again'] % len(made)]
        if p.endswith('.po'):
            write(p, read(p) + '\n#~ msgid "zz"\n#~ msgstr "zz"\n')
        else:
            os.remove(p)


def options(case):
    o = {k: v for k, v in case['opts'].items() if v is not None}
    return o


def reference(case):
    """The two tools used one after the other."""
    o = options(case)
    found = {'no_obsolete': [], 'no_fuzzy': [], 'no_empty_msgstr': []}
    changed = False
    files = glob.glob(case['glob'])
    for f in files:
        for lang in case['langs']:
            p, folder, base = paths(case['schema'], lang, f)
            os.makedirs(os.path.abspath(folder), exist_ok=True)
            po, md = settle(p, base)
            shared = {k: o[k] for k in ('extensions', 'command_aliases') if k in o}
            ex = m_md2po.Md2Po(glob.escape(f), location=o.get('location', True), _check_saved_files_changed=True,
                               include_codeblocks=o.get('include_codeblocks', False), **shared,
                               **(case.get('md2po_kwargs') or {}))
            ex.extract(save=True, po_filepath=po, po_encoding=o.get('po_encoding'), md_encoding=o.get('md_encoding'),
                       wrapwidth=o.get('po_wrapwidth', 78))
            tr = m_po2md.Po2Md([glob.escape(po)], po_encoding=o.get('po_encoding'), wrapwidth=o.get('md_wrapwidth', 80),
                               _check_saved_files_changed=True, **shared, **(case.get('po2md_kwargs') or {}))
            tr.translate(f, save=md, md_encoding=o.get('md_encoding'))
            changed = changed or ex._saved_files_changed or tr._saved_files_changed
            for k, fn in (('no_obsolete', check_obsolete_entries_in_filepaths),
                          ('no_fuzzy', check_fuzzy_entries_in_filepaths),
                          ('no_empty_msgstr', check_empty_msgstrs_in_filepaths)):
                if case[k]:
                    found[k].extend(fn([po]))
    return changed, found['no_obsolete'], found['no_fuzzy'], found['no_empty_msgstr']


class Spy:
    """Counts the extractions and translations."""

    def __enter__(self):
        self.log = log = []
        self.old = (m_md2po.Md2Po.extract, m_po2md.Po2Md.translate)

        def extract(s, *a, **k):
            r = self.old[0](s, *a, **k)
            po = k.get('po_filepath', a[0] if a else None)
            log.append(('extract', list(getattr(s, 'filepaths', [])), os.path.normpath(po)))
            return r

        def translate(s, *a, **k):
            r = self.old[1](s, *a, **k)
            log.append(('translate', [os.path.normpath(p.fpath) for p in s.pofiles],
                        k.get('filepath_or_content', a[0] if a else None),
                        os.path.normpath(k.get('save', a[1] if len(a) > 1 else None) or '')))
            return r
        m_md2po.Md2Po.extract, m_po2md.Po2Md.translate = extract, translate
        return self

    def __exit__(self, *_):
        m_md2po.Md2Po.extract, m_po2md.Po2Md.translate = self.old


def run(case):
    with scratch():
        try:
            prepare(case)
        except (FileExistsError, NotADirectoryError, IsADirectoryError):
            return
        before = snapshot()
        with capture():
            if case.get('bad'):
                try:
                    markdown_to_pofile_to_markdown(case['langs'], case['glob'], case['schema'])
                except (ValueError, FileNotFoundError) as e:
                    want = ValueError if '{lang}' not in case['schema'] else FileNotFoundError
                    expect(isinstance(e, want), 'it is refused with another error', repr(e))
                else:
                    raise Bad('it is not refused')
                equal(snapshot(), before, 'files after a refused run')
                return
            try:
                rerun(case)
                with Spy() as spy:
                    want = reference(case)
            except (FileExistsError, NotADirectoryError, IsADirectoryError):
                return  # the schema gives the same path to a file and to a directory
            after, log_want = snapshot(), spy.log
    with scratch():
        prepare(case)
        rerun(case)
        o = options(case)
        for k in ('no_obsolete', 'no_fuzzy', 'no_empty_msgstr'):
            o[k] = case[k]
        o['_check_saved_files_changed'] = case['check']
        for k in ('md2po_kwargs', 'po2md_kwargs'):
            if k in case:
                o[k] = case[k]
        with Spy() as spy:
            if case.get('cli'):
                args = [case['glob'], '-o', case['schema']]
                for x in case['langs']:
                    args += ['-l', x]
                flags = {'location': lambda v: [] if v else ['--no-location'],
                         'po_wrapwidth': lambda v: ['--po-wrapwidth', str(v)],
                         'md_wrapwidth': lambda v: ['--md-wrapwidth', str(v)],
                         'po_encoding': lambda v: ['--po-encoding', v], 'md_encoding': lambda v: ['--md-encoding', v],
                         'include_codeblocks': lambda v: ['--include-codeblocks'] if v else [],
                         'command_aliases': lambda v: [y for a, b in v.items() for y in ('--command-alias', f'{a}:{b}')],
                         'extensions': lambda v: [y for a in v for y in ('-x', a)], 'debug': lambda v: [],
                         'no_obsolete': lambda v: ['--no-obsolete'] if v else [],
                         'no_fuzzy': lambda v: ['--no-fuzzy'] if v else [],
                         'no_empty_msgstr': lambda v: ['--no-empty-msgstr'] if v else [],
                         '_check_saved_files_changed': lambda v: ['--check'] if v else []}
                for k, v in o.items():
                    args += flags[k](v)
                r, code, out, err = cli(cli_run, args)
                exp = 2 if case['check'] and want[0] else 0
                for j in range(3):
                    if want[j + 1]:
                        exp = 3 + j
                equal(code, exp, 'exit code of ' + ' '.join(args))
            else:
                got = markdown_to_pofile_to_markdown(case['langs'], case['glob'], case['schema'], **o)
                if case['check']:
                    equal(bool(got[0]), want[0], 'reported change')
                else:
                    expect(not got[0], 'a change is reported without check mode')
                for j, k in enumerate(('obsolete', 'fuzzy', 'empty')):
                    equal(list(got[j + 1]), want[j + 1], f'{k} locations')
        now = snapshot()
        if case.get('cli'):  # the languages are a set
            equal(sorted(map(repr, spy.log)), sorted(map(repr, log_want)), 'steps')
        else:
            equal(spy.log, log_want, 'steps')
        equal(sorted(now), sorted(after), 'files')
        for k in now:
            equal(now[k], after[k], f'content of {k}')


def case(files=(('README.md', TEXTS[0]),), glob='*.md', langs=('es',), schema='locale/{lang}', **k):
    d = dict(files=[list(f) for f in files], glob=glob, langs=list(langs), schema=schema, opts={}, check=False,
             no_obsolete=False, no_fuzzy=False, no_empty_msgstr=False)
    d.update(k)
    return d


ALL = dict(no_obsolete=True, no_fuzzy=True, no_empty_msgstr=True)
TWO = dict(files=[('a.md', 'x\n'), ('b.md', TEXTS[2])], langs=('fr', 'es'), schema='{lang}/{basename}')
CORPUS = [case(check=True, again=n, **TWO) for n in range(-1, 8)] + [case(), case(check=True), case(check=True, **ALL, previous='all'), case(langs=('es', 'fr'), check=True, **ALL),
          case(files=[('a.md', 'x\n'), ('b.md', TEXTS[2])], langs=('fr', 'es'), schema='{lang}/{basename}', check=True, **ALL),
          case(files=[('foo[1].md', 'one\n'), ('foo1.md', 'two\n')], schema='{lang}/{basename}', **ALL),
          case(opts={k: v[-1] for k, v in OPTS.items() if k != 'debug'}, files=[('a.md', t) for t in TEXTS[1:3]], **ALL),
          case(bad=True, schema='locale/x'), case(bad=True, glob='*.none'), case(bad=True, glob='[b-a].md'),
          case(bad=True, schema='x/{basename}', glob='*.none'),
          case(md2po_kwargs={'ignore_msgids': ['hello']}, po2md_kwargs={'bold_start_string': '__'},
               files=[('a.md', 'hello **x**\n')])] + [
    case(opts={k: x}, files=[('a.md', t) for t in [TEXTS[j]]], check=True, **ALL)
    for k, v in OPTS.items() for x in v for j in (0, 2, 3)] + [
    case(previous=p, langs=('es', 'fr'), check=c, cli=q, **ALL) for p in PREVIOUS for c in (False, True) for q in (False, True)] + [
    case(schema=s, files=[('README.md', 'x\n'), ('es', 'y\n'), ('x.y.md', 'z\n')], glob='*', langs=('es', 'fr')) for s in SCHEMAS]


def gen(rng, k):
    c = case(files=[[n, rng.choice(TEXTS)] for n in rng.sample(NAMES, rng.randrange(1, 4))],
             glob=rng.choice(['*.md', '*.md', '*', '[a-f]*.md', '**/*.md', 'a*', 'sub/*']),
             langs=rng.choice(LANGS), schema=rng.choice(SCHEMAS), check=rng.random() < .6,
             no_obsolete=rng.random() < .5, no_fuzzy=rng.random() < .5, no_empty_msgstr=rng.random() < .5,
             opts={o: rng.choice(v) for o, v in OPTS.items() if rng.random() < .4}, previous=rng.choice(PREVIOUS))
    if rng.random() < .4:
        c['again'] = rng.randrange(-1, 8)
    files = [f for f, _ in c['files']]
    if rng.random() < .3 and c['langs'] and c['opts'].get('extensions') != []:
        c['cli'] = True
        c['langs'] = sorted(set(c['langs']))
    import fnmatch
    matched = [f for f in files if fnmatch.fnmatch(f, c['glob']) and ('/' not in f or '/' in c['glob'])]
    if not matched or any(f.startswith('es') or f == 'noext' for f in matched) and c['glob'] == '*':
        c['glob'] = glob.escape(files[0])
    return c


if __name__ == '__main__':
    main(CORPUS, gen, run, RULE)
