"""P10: quality checks of PO files."""
from common import *
import mdpo.po as po
from mdpo.md2po.__main__ import run as md2po
from mdpo.md2po2md.__main__ import run as md2po2md
from mdpo.mdpo2html.__main__ import run as mdpo2html
from mdpo.po2md.__main__ import run as po2md

KINDS = ('obsolete', 'fuzzy', 'empty')
CHECKS = {'obsolete': po.check_obsolete_entries_in_filepaths, 'fuzzy': po.check_fuzzy_entries_in_filepaths,
          'empty': po.check_empty_msgstrs_in_filepaths}
SCANS = {'obsolete': po.parse_obsoletes_from_content_lines, 'fuzzy': po.parse_fuzzy_from_content_lines,
         'empty': po.parse_empty_msgstr_from_content_lines}
WORDS = {'obsolete': ('obsolete entries', 'obsolete entry'), 'fuzzy': ('fuzzy entries', 'fuzzy entry'),
         'empty': ('empty msgstrs', 'empty msgstr')}

RAW = ['\n', ' \n', '#~ msgid "a"\n', '#~ msgstr ""\n', '#~ msgstr "b"\n', '#~\n', '#~x\n', '#, fuzzy\n',
       '#, python-format, fuzzy\n', '#,fuzzy\n', '# fuzzy\n', '#. fuzzy\n', '#| msgid "fuzzy"\n', '#, fuzz\n',
       'msgid ""\n', 'msgid "a"\n', 'msgid "fuzzy #~ "\n', 'msgstr ""\n', 'msgstr "b"\n', 'msgstr "" \n', '"b"\n',
       '"Content-Type: text/plain; charset=UTF-8\\n"\n', 'msgctxt "c"\n', '#: a.md:1\n', 'msgid ""\r\n',
       'msgstr ""\r\n', '\r\n', 'msgstr ""', '#~ msgid ""\n', '#~ "x"\n', '#~ #~ x\n', '#, ', '\t\n', '#~ \n']


def scan(kind, lines):
    out = []
    inside = False
    for i, l in enumerate(lines):
        if kind == 'obsolete':
            o = l.startswith(b'#~ ')
            if o and not inside:
                out.append(i + 1)
            inside = o
        elif kind == 'fuzzy':
            if l.startswith(b'#,') and b'fuzzy' in l:
                out.append(i + 1)
        else:
            if l.startswith((b'msgstr ""', b'#~ msgstr ""')) and \
                    not (i and lines[i - 1].startswith(b'msgid ""')) and \
                    (i + 1 == len(lines) or not lines[i + 1].strip()):
                out.append(i + 1)
    return out


def locations(kind, paths):
    out = []
    for p in paths:
        with open(p, 'rb') as f:
            out += [f'{p}:{n}' for n in scan(kind, f.readlines())]
    return out


def report(kind, locs):
    if not locs:
        return ''
    if len(locs) > 2:
        return f'Found {len(locs)} {WORDS[kind][0]}:\n' + ''.join(x + '\n' for x in locs)
    return ''.join(f'Found {WORDS[kind][1]} at {x}\n' for x in locs)


def entry(rng, j):
    o = '#~ ' if rng.random() < .4 else ''
    out = []
    if rng.random() < .4 and not o:
        out.append('#, fuzzy')
    t = rng.choice(['', '', 'T', 'T2'])
    out += [f'{o}msgid "m{j}"', f'{o}msgstr "{t}"']
    if rng.random() < .2:
        out[-1] = f'{o}msgstr ""'
        out.append(f'{o}"x{j}"')
    return '\n'.join(out)


def po_text(rng):
    es = [entry(rng, j) for j in range(rng.randrange(1, 7))]
    return '#\nmsgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n' + '\n\n'.join(es) + '\n'


def gen(rng, k):
    if k % 3:
        return dict(kind='scan', files=[[rng.choice(RAW) for _ in range(rng.randrange(0, 9))]
                                        for _ in range(rng.randrange(1, 4))])
    flags = [f for f in ('--no-obsolete', '--no-fuzzy', '--no-empty-msgstr') if rng.random() < .6]
    if rng.random() < .5:
        flags.append('--check')
    return dict(kind='cli', tool=rng.choice(['md2po', 'po2md', 'mdpo2html', 'md2po2md']), flags=flags,
                pofiles=[po_text(rng) for _ in range(rng.randrange(1, 4))],
                msgs=[f'm{j}' for j in range(6) if rng.random() < .6] or ['m0'], again=rng.random() < .5)


def snapshot():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.join(d, f)
            out[p] = open(p, 'rb').read()
    return out


def run(case):
    with scratch():
        if case['kind'] == 'scan':
            paths = []
            for j, ls in enumerate(case['files']):
                paths.append(f'f{j}.po')
                with open(paths[-1], 'wb') as f:
                    f.write(''.join(ls).encode())
            for kind in KINDS:
                equal(list(CHECKS[kind](paths)), locations(kind, paths), f'{kind} locations of the files')
                ls = open(paths[0], 'rb').readlines()
                equal(list(SCANS[kind](ls, location_prefix='>')), [f'>{n}' for n in scan(kind, ls)],
                      f'{kind} locations of the lines')
            return
        tool, flags = case['tool'], case['flags']
        md = '\n\n'.join(case['msgs']) + '\n'
        write('d.md', md)
        write('d.html', ''.join(f'<p>{m}</p>\n' for m in case['msgs']))
        paths = []
        for j, t in enumerate(case['pofiles']):
            paths.append(f'f{j}.po')
            write(paths[-1], t)
        if tool == 'md2po':
            paths = paths[:1]
            args = ['d.md', '-q', '-s', '-p', paths[0]] + flags
            fn = md2po
        elif tool == 'po2md':
            args = ['d.md', '-p'] + paths + ['-q', '-s', 'out.md'] + flags
            fn = po2md
        elif tool == 'mdpo2html':
            args = ['d.html', '-p'] + paths + ['-q', '-s', 'out.html'] + flags
            fn = mdpo2html
        else:
            os.makedirs('es')
            paths = ['es/d.md.po']
            os.rename('f0.po', paths[0])
            args = ['d.md', '-l', 'es', '-o', '{lang}'] + flags
            fn = md2po2md
        if case['again']:
            cli(fn, args)
        before = snapshot()
        _, code, _, err = cli(fn, args)
        changed = snapshot() != before
        want, wcode = '', 2 if '--check' in flags and changed else 0
        for j, kind in enumerate(KINDS):
            if ('--no-empty-msgstr' if kind == 'empty' else f'--no-{kind}') in flags:
                locs = locations(kind, paths)
                if locs:
                    want += report(kind, locs)
                    wcode = 3 + j
        equal(code, wcode, f'exit code of {tool} {args}')
        got, exp = err.splitlines(), want.splitlines()
        for l in locations('obsolete', paths) + locations('fuzzy', paths) + locations('empty', paths):
            equal([x for x in got if x.endswith(l)], [x for x in exp if x.endswith(l)],
                  f'locations in the error output of {tool} {args}')
        equal(err, want, f'error output of {tool} {args}')


CORPUS = [dict(kind='scan', files=[['msgstr ""\n', 'msgid "a"\n', 'msgstr ""\n', '\n']]),
          dict(kind='scan', files=[['#~ msgid "a"\n', '#~ msgstr ""\n', '\n', '#~ msgid "b"\n'], ['#~ x\n']])]

if __name__ == '__main__':
    main(CORPUS, gen, run, 'contents of PO files made of line fragments, and command line runs over PO files'
         ' with active, obsolete, fuzzy and empty entries', shrink=None)
