"""P09: saved files and check mode."""
import locale
import os

from common import *
from mdpo.io import save_file_checking_file_changed
from mdpo.md2po import Md2Po, markdown_to_pofile
from mdpo.md2po.__main__ import run as md2po_run
from mdpo.md2po2md import markdown_to_pofile_to_markdown
from mdpo.md2po2md.__main__ import run as md2po2md_run
from mdpo.mdpo2html import MdPo2HTML, markdown_pofile_to_html
from mdpo.mdpo2html.__main__ import run as html_run
from mdpo.po2md import Po2Md, pofile_to_markdown
from mdpo.po2md.__main__ import run as po2md_run

RULE = 'a case is non trivial if a file is saved'
OLD = 1000000000


def content_of(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def previous(kind, final):
    """Bytes of the file before the run, None if it does not exist."""
    if kind == 'none':
        return None
    if kind == 'same':
        return final
    if kind == 'empty':
        return b''
    if kind == 'crlf':
        return final.replace(b'\n', b'\r\n')
    if kind == 'cr':
        return final.replace(b'\n', b'\r')
    if kind == 'bom':
        return b'\xef\xbb\xbf' + final
    if kind == 'stripped':
        return final.strip()
    if kind == 'prefix':
        return final[:-1]
    if kind == 'longer':
        return final + b'\n'
    if kind == 'longer2':
        return final + b'x'
    if kind == 'space':
        return final.replace(b'\n', b' \n', 1)
    if kind == 'case':
        return final.swapcase()
    if kind == 'binary':
        return b'\xff\xfe\x00\x81' + final
    if kind == 'latin1':
        return 'caf\xe9'.encode('latin-1')
    if kind == 'swap':
        return b'\n'.join(reversed(final.split(b'\n')))
    if kind == 'upper':
        return final.upper()
    raise ValueError(kind)


PREV = ['none', 'same', 'empty', 'crlf', 'cr', 'bom', 'stripped', 'prefix', 'longer', 'longer2', 'space', 'case', 'binary',
        'latin1', 'swap', 'upper']


def prepare(path, data):
    if data is None:
        if os.path.exists(path):
            os.remove(path)
        return
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    os.utime(path, (OLD, OLD))


def written(path):
    return os.stat(path).st_mtime != OLD


def judge(path, before, after, check, reported, what, exits=None):
    """State after a run that saved a file whose final bytes must be ``after``."""
    equal(content_of(path), after, f'{what}: content of the file')
    changed = before != after
    if check:
        if reported is not None:
            equal(bool(reported[0]), changed, f'{what}: change reported')
        expect(changed or not written(path), f'{what}: the file had the content and was written')
    elif reported is not None:
        equal(bool(reported[0]), False, f'{what}: change reported without check mode')
    if exits is not None:
        equal(exits, 2 if check and changed else 0, f'{what}: exit code')


MD = {'plain': 'Hello\n\nBye\n', 'unicode': '# T\xedtulo \u20ac\n\nUno *dos* `tres`\n', 'empty': '',
      'long': ' '.join(['word'] * 60) + '\n', 'html': 'a\n\n<p>x</p>\n', 'latin': 'caf\xe9 \xf1\n',
      'link': '[a](b) and [c][d]\n\n[d]: e "f"\n', 'tail': 'a\n\n\n'}
HTML = {'plain': '<h1>Hello</h1>\n<p>Bye <em>x</em></p>\n', 'cr': '<p>a\r\nb</p>\r\n', 'unicode': '<p>\u20ac &amp; x</p>'}
PO = '#\nmsgid ""\nmsgstr ""\n\n%s'
ENTRY = 'msgid "Hello"\nmsgstr "Hola"\n'


def po_text(case):
    if case.get('po') == 'cr':
        return PO % 'msgid "Hello"\nmsgstr "Ho\\rla"\n'
    if case.get('po') == 'obsolete':
        return PO % ('msgid "Bye"\nmsgstr "Adios"\n\n#~ msgid "gone"\n#~ msgstr "ido"\n')
    if case.get('po') == 'latin':
        return PO % 'msgid "Hello"\nmsgstr "\xa1Hola ca\xf1a!"\n'
    return PO % ENTRY


def run(case):
    with scratch():
        k = case['kind']
        check = case.get('check', True)
        if k == 'save':
            enc = case['enc']
            final = case['text'].encode(enc or locale.getpreferredencoding(False))
            before = previous(case['prev'], final)
            prepare('f', before)
            prepare('other', b'other')
            args = () if enc == 'utf-8' and case.get('default') else (enc,)
            r = save_file_checking_file_changed('f', case['text'], *args)
            judge('f', before, final, True, [r], 'save')
            equal(content_of('other'), b'other', 'another file')
            if case.get('twice'):
                os.utime('f', (OLD, OLD))
                judge('f', final, final, True, [save_file_checking_file_changed('f', case['text'], *args)], 'save again')
        elif k == 'md2po':
            md = MD[case['md']]
            write('in.md', md, encoding=case.get('enc', 'utf-8'))
            kw = dict(case.get('kw', {}))
            penc = case.get('po_encoding')
            ekw = dict(md_encoding=case.get('enc', 'utf-8'))
            if penc:
                ekw['po_encoding'] = penc
            if 'po' in case:
                write('p.po', po_text(case), encoding=penc or 'utf-8')
            base = content_of('p.po')
            pf = Md2Po('in.md', **kw).extract(po_filepath='p.po', save=True, **ekw)
            final = content_of('p.po')
            equal(final.decode(pf.encoding), str(pf), 'saved PO file')
            prev = base if case['prev'] == 'before' else previous(case['prev'], final)
            prepare('p.po', prev)
            if case['prev'] not in ('before', 'same'):
                try:
                    pf2 = Md2Po('in.md', **kw).extract(po_filepath='p.po', **ekw)
                except Exception:
                    return
                final = str(pf2).encode(pf2.encoding)
            mtime_ok = content_of('p.po') == prev
            expect(mtime_ok and (prev is None or not written('p.po')), 'an extraction without saving writes the file')
            if case.get('cli'):
                args = ['in.md', '-p', 'p.po', '-s', '-q', '--md-encoding', case.get('enc', 'utf-8')]
                args += ['--check'] if check else []
                args += ['--po-encoding', penc] if penc else []
                args += case.get('args', [])
                r, code, out, err = cli(md2po_run, args)
                judge('p.po', prev, final, check, None, 'md2po', exits=code)
            else:
                t = Md2Po('in.md', _check_saved_files_changed=check, **kw)
                t.extract(po_filepath='p.po', save=True, **ekw)
                judge('p.po', prev, final, check, [t._saved_files_changed], 'md2po')
            # not saving
            prepare('p.po', prev)
            t = Md2Po('in.md', _check_saved_files_changed=check, **kw)
            t.extract(**dict(ekw, **({} if prev is None else {'po_filepath': 'p.po'})))
            equal(content_of('p.po'), prev, 'extraction without saving')
            expect(not t._saved_files_changed, 'a change is reported without saving')
        elif k in ('po2md', 'html'):
            docs = MD if k == 'po2md' else HTML
            enc = case.get('enc', 'utf-8')
            write('p.po', po_text(case))
            with open('in', 'w', encoding=enc, newline='') as f:
                f.write(docs[case['md']])
            cls, name = (Po2Md, 'md_encoding') if k == 'po2md' else (MdPo2HTML, 'html_encoding')
            out = cls(['p.po']).translate('in', **{name: enc})
            final = out.encode(enc)
            prev = previous(case['prev'], final)
            path = case.get('path', 'out')
            prepare(path, prev)
            if case.get('cli'):
                args = ['in', '-p', 'p.po', '-s', path, '-q', '--' + name.replace('_', '-'), enc]
                r, code, o, err = cli(po2md_run if k == 'po2md' else html_run, args + (['--check'] if check else []))
                judge(path, prev, final, check, None, k, exits=code)
                equal(o, '', 'output written with a saved file')
            else:
                t = cls(['p.po'], **({'_check_saved_files_changed': True} if check else {}))
                got = t.translate('in', save=path, **{name: enc})
                equal(got, out, 'output returned when saving')
                judge(path, prev, final, check, [t._saved_files_changed], k)
            # not saving
            prepare(path, prev)
            t = cls(['p.po'], **({'_check_saved_files_changed': True} if check else {}))
            t.translate('in', **{name: enc})
            equal(content_of(path), prev, 'translation without saving')
            expect(not t._saved_files_changed, 'a change is reported without saving')
        elif k == 'combined':
            write('a.md', MD[case['md']])
            write('b.md', 'Other text\n')
            schema = case.get('schema', 'locale/{lang}/{basename}.md')
            langs = case['langs']
            markdown_to_pofile_to_markdown(langs, '*.md', schema)
            paths = sorted(os.path.join(d, f) for d, _, fs in os.walk('locale') for f in fs)
            finals = {p: content_of(p) for p in paths}
            before = dict(finals)
            for i, prev in case['prev']:
                p = paths[i % len(paths)]
                if p.endswith('.po') and prev in ('binary', 'latin1', 'case', 'swap', 'upper', 'bom', 'crlf', 'cr', 'prefix',
                                                  'stripped', 'space', 'empty', 'longer2'):
                    prev = 'longer'
                before[p] = previous(prev, finals[p])
            for p in paths:
                prepare(p, before[p])
            changed = any(before[p] != finals[p] for p in paths)
            if case.get('cli'):
                args = ['*.md', '-o', schema] + [x for l in langs for x in ('-l', l)]
                r, code, o, err = cli(md2po2md_run, args + (['--check'] if check else []))
                equal(code, 2 if check and changed else 0, 'md2po2md: exit code')
            else:
                r = markdown_to_pofile_to_markdown(langs, '*.md', schema, _check_saved_files_changed=check)
                equal(bool(r[0]), check and changed, 'md2po2md: change reported')
            for p in paths:
                equal(content_of(p), finals[p], f'md2po2md: content of {p}')
                if check:
                    expect(before[p] != finals[p] or not written(p), f'md2po2md: {p} had the content and was written')
        elif k == 'function':
            write('in.md', MD[case['md']])
            pf = markdown_to_pofile('in.md', po_filepath='p.po', save=True)
            equal(read('p.po'), str(pf), 'markdown_to_pofile: saved file')
            out = pofile_to_markdown('in.md', 'p.po', save='o.md')
            equal(read('o.md'), out, 'pofile_to_markdown: saved file')
            write('in.html', HTML['plain'])
            out = markdown_pofile_to_html('in.html', 'p.po', save='o.html')
            equal(read('o.html'), out, 'markdown_pofile_to_html: saved file')


TEXTS = ['', 'a', 'a\n', 'a\nb\n', 'a\r\nb', '\r', 'caf\xe9\n', '\n\n', 'a\n\n', ' a ', 'a\x0bb\x85', '\ufeffa']
CORPUS = [dict(kind='save', text=t, enc='utf-8', prev=p, default=True) for t in ('a\nb\n', 'a\r\nb\n', '', 'caf\xe9\n')
          for p in PREV] + \
    [dict(kind='save', text='caf\xe9\n', enc=e, prev=p, twice=True) for e in ('latin-1', 'utf-16', None, 'utf-8')
     for p in ('none', 'same', 'crlf', 'longer', 'latin1', 'bom')] + \
    [dict(kind='md2po', md=m, prev=p, check=c, cli=x, po='t') for m in ('plain', 'unicode') for p in
     ('none', 'same', 'before', 'longer', 'crlf') for c in (True, False) for x in (True, False)] + \
    [dict(kind='md2po', md='plain', prev=p, check=True, cli=x, po=q, kw=w) for x in (True, False) for p in
     ('same', 'before') for q, w in (('obsolete', {}), ('latin', {}), ('obsolete', {'preserve_not_found': False}),
                                     ('t', {'mark_not_found_as_obsolete': False})) if not (x and w)] + \
    [dict(kind='md2po', md='latin', prev=p, check=True, cli=x, enc='latin-1', po='latin', po_encoding='latin-1')
     for p in ('same', 'none', 'before') for x in (True, False)] + \
    [dict(kind='md2po', md='plain', prev=p, check=True, cli=True, args=['-d', 'Language: es', '--metadata',
                                                                      'X-K: v'][2:], kw={'metadata': {'X-K': 'v'}})
     for p in ('none', 'same')] + \
    [dict(kind='md2po', md='plain', prev=p, check=c, cli=False, kw={'metadata': {'X-K': 'v'}})
     for p in ('none', 'same', 'longer') for c in (True, False)] + \
    [dict(kind=k, md=m, prev=p, check=c, cli=x) for k, ms in (('po2md', ('plain', 'unicode', 'empty')),
                                                               ('html', ('plain', 'cr'))) for m in ms
     for p in ('none', 'same', 'longer', 'crlf', 'empty') for c in (True, False) for x in (True, False)] + \
    [dict(kind='po2md', md='plain', prev=p, check=True, cli=x, po='cr') for p in PREV for x in (True, False)] + \
    [dict(kind=k, md='plain', prev=p, check=True, cli=x, po='latin', enc=e) for k in ('po2md', 'html')
     for p in ('none', 'same', 'binary') for x in (True, False) for e in ('latin-1', 'utf-16')] + \
    [dict(kind='combined', md='plain', langs=l, prev=p, check=c, cli=x) for l in (['es'], ['es', 'fr'])
     for p in ([], [[0, 'none']], [[1, 'none']], [[1, 'longer']], [[2, 'longer'], [3, 'none']], [[3, 'longer2']],
               [[7, 'longer2']], [[6, 'longer']])
     for c in (True, False) for x in (True, False)] + \
    [dict(kind='function', md=m) for m in MD if m != 'empty']


def gen(rng, k):
    r = rng.random()
    c = dict(prev=rng.choice(PREV), check=rng.random() < .75, cli=rng.random() < .4)
    if r < .2:
        return dict(c, kind='save', text=rng.choice(TEXTS) + rng.choice(TEXTS), enc=rng.choice(['utf-8', 'utf-16', 'utf-8-sig',
                                                                                              None]), twice=True)
    if r < .4:
        c = dict(c, kind='md2po', md=rng.choice(list(MD)), po=rng.choice(['t', 'obsolete', 'latin']))
        if c['md'] == 'empty':
            c['cli'] = False
        if rng.random() < .3:
            c['prev'] = rng.choice(['before', 'same', 'none'])
        if not c['cli']:
            c['kw'] = rng.choice([{}, {'mark_not_found_as_obsolete': False}, {'preserve_not_found': False},
                                  {'metadata': {'A': 'b'}}, {'location': False}, {'plaintext': True}])
        return c
    if r < .85:
        kind = rng.choice(['po2md', 'html'])
        return dict(c, kind=kind, md=rng.choice(list(MD if kind == 'po2md' else HTML)), po=rng.choice(['t', 'cr', 'latin']),
                    path=rng.choice(['out', 'in', 'p.md']) if False else 'out', enc=rng.choice(['utf-8', 'utf-16']))
    return dict(c, kind='combined', md=rng.choice([m for m in MD if m != 'empty']),
                langs=rng.choice([['es'], ['es', 'fr'], ['de', 'es', 'fr']]),
                schema=rng.choice(['locale/{lang}/{basename}.md', 'locale/{lang}', 'locale/{lang}/x/{basename}.md']),
                prev=[[rng.randrange(12), rng.choice(PREV)] for _ in range(rng.choice([0, 1, 1, 2]))])


if __name__ == '__main__':
    main(CORPUS, gen, run, RULE)
