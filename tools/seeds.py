"""Planted bugs: one edit or more of the sources each, with a demonstration."""
PRE = 'import os, sys, tempfile\n'
SEEDS = {
    'B01': dict(
        property='P12', needs='two handlers for the same event, the first one skipping',
        breaks='the handlers after the first one that returns False are not called',
        edits=[('event.py', '''    skip = False
    for event in pre_events:
        if event(*event_args) is False:
            skip = True
    return skip
''', '''    return any(event(*event_args) is False for event in pre_events)
''')],
        demo='''
from mdpo.md2po import markdown_to_pofile
seen = []
markdown_to_pofile('Hello', events={'text': [lambda *a: seen.append(1) or False, lambda *a: seen.append(2)]})
assert seen == [1, 2], seen
'''),
    'B02': dict(
        property='P17', needs='an environment variable that is set to the empty text before the run',
        breaks='variables whose value was empty are removed after the run',
        edits=[('io.py', 'key: os.getenv(key) for key in env', 'key: os.getenv(key) or None for key in env')],
        demo='''
import os
from mdpo.io import environ
os.environ['SOME_VAR'] = ''
with environ(SOME_VAR='x'):
    assert os.environ['SOME_VAR'] == 'x'
assert os.environ.get('SOME_VAR') == '', os.environ.get('SOME_VAR')
'''),
    'B03': dict(
        property='P14', needs='a repeated key before a pair that cannot be parsed',
        breaks='the pair that cannot be parsed is reported although the repeated key comes first',
        edits=[('text.py', '''    response = {}
    for pair in pairs:
        try:
            key, value = parse_escaped_pair(pair, separator=separator)
        except ValueError as exc:
            raise ValueError(pair) from exc
        if key in response:
''', '''    parsed, response = [], {}
    for pair in pairs:
        try:
            parsed.append(parse_escaped_pair(pair, separator=separator))
        except ValueError as exc:
            raise ValueError(pair) from exc
    for key, value in parsed:
        if key in response:
''')],
        demo='''
from mdpo.text import parse_escaped_pairs
try:
    parse_escaped_pairs(['a:b', 'a:c', 'wrong'])
except KeyError as e:
    assert e.args == ('a',), e.args
else:
    assert False
'''),
    'B04': dict(
        property='P09', needs='check mode and an encoding of the Markdown files other than UTF-8',
        breaks='in check mode po2md does not write the file with the given encoding',
        edits=[('po2md/__init__.py', '''                    save,
                    self.output,
                    encoding=md_encoding,
''', '''                    save,
                    self.output,
''')],
        demo='''
from mdpo.po2md import Po2Md
open('a.po', 'w').write('msgid ""\\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\\n\\nmsgid "a"\\nmsgstr "\\u00f1"\\n')
t = Po2Md('a.po', _check_saved_files_changed=True)
t.translate('a', save='out.md', md_encoding='latin-1')
assert open('out.md', 'rb').read() == b'\\xf1\\n', open('out.md', 'rb').read()
'''),
    'B05': dict(
        property='P13', needs='a list of paths with the same path twice',
        breaks='repeated paths are read once',
        edits=[('io.py', '''        response.append(filepath)
    response.sort()
    return response''', '''        response.append(filepath)
    return sorted(set(response))''')],
        demo='''
from mdpo.io import filter_paths
assert filter_paths(['b', 'a', 'b']) == ['a', 'b', 'b'], filter_paths(['b', 'a', 'b'])
'''),
    'B06': dict(
        property='P04', needs='an alias that is the name of another command without the prefix',
        breaks='an alias named as a command (without the prefix) runs that command instead of its target',
        edits=[('command.py', 'response[alias] = valid_mdpo_command',
                'response[alias] = normalize_mdpo_command(alias) or valid_mdpo_command')],
        demo='''
from mdpo.command import normalize_mdpo_command_aliases as f
assert f({'context': 'translator', 'on': 'enable'}) == {'context': 'mdpo-translator', 'on': 'mdpo-enable'}, f({'context': 'translator'})
'''),
    'B07': dict(
        property='P10', needs='an obsolete run that goes on with a previous msgid comment',
        breaks='each obsolete entry after a line of its same run without a space after the mark is not reported',
        edits=[('po.py', "elif inside_obsolete_message and line[0:3] != b'#~ ':",
                "elif inside_obsolete_message and not line.strip():")],
        demo='''
from mdpo.po import parse_obsoletes_from_content_lines as f
lines = [b'#~ msgid "a"\\n', b'#~ msgstr ""\\n', b'# comment\\n', b'#~ msgid "b"\\n', b'#~ msgstr ""\\n']
assert list(f(lines)) == ['line 1', 'line 4'], list(f(lines))
'''),
    'B08': dict(
        property='P11', needs='a code text with a backslash before a delimiter character',
        breaks='delimiters after a backslash are not counted, and that number can be chosen',
        edits=[('text.py', "    for ch in text:\n        if ch == char:",
                "    for ch in text.replace(f'\\\\{char}', ''):\n        if ch == char:")],
        demo='''
from mdpo.text import min_not_max_chars_in_a_row as f
assert f('`', 'a `` b') == 1
assert f('`', 'a \\\\` b') == 2, f('`', 'a \\\\` b')
'''),
    'B09': dict(
        property='P16', needs='two files or languages, only the first of which changes on translation',
        breaks='the change reported is the one of the last translation',
        edits=[('md2po2md/__init__.py', '''            if _check_saved_files_changed and _saved_files_changed is False:
                _saved_files_changed = po2md._saved_files_changed
''', '''            if _check_saved_files_changed and not (
                _saved_files_changed and obsoletes
            ):
                _saved_files_changed = bool(po2md._saved_files_changed) or (
                    _saved_files_changed and md2po._saved_files_changed
                )
''')],
        demo='''
import os
from mdpo.md2po2md import markdown_to_pofile_to_markdown as run
for n in 'ab':
    open(n + '.md', 'w').write(n)
sch = 'locale/{lang}/{basename}'
kw = dict(_check_saved_files_changed=True)
run(['es'], '*.md', sch, **kw)
assert run(['es'], '*.md', sch, **kw)[0] is False
for n in 'ab':
    os.remove('locale/es/' + n)
    r = run(['es'], '*.md', sch, **kw)
    assert r[0] is True, (n, r)
'''),
    'B10': dict(
        property='P16', needs='a file name with several dots',
        breaks='the file name of the schema ends at its first dot',
        edits=[('md2po2md/__init__.py', "os.path.splitext(os.path.basename(filepath))[0]",
                "os.path.basename(filepath).partition('.')[0]")],
        demo='''
import os
from mdpo.md2po2md import markdown_to_pofile_to_markdown as run
open('a.b.md', 'w').write('x')
run(['es'], '*.md', 'locale/{lang}/{basename}')
assert os.path.exists('locale/es/a.b'), os.listdir('locale/es')
'''),
    'B11': dict(
        property='P03', needs='several files, one of which ends with a pending disable-next-block command',
        breaks='the pending command of a file applies to the first message of the next one, unless a disable region is open',
        edits=[('md2po/__init__.py', '''                self.disable_next_block = False
                self.disable = False
                self.enable_next_block = False
                self.include_next_codeblock''', '''                if self.disable or self.enable_next_block:
                    self.disable_next_block = False
                    self.disable = False
                    self.enable_next_block = False
                self.include_next_codeblock''')],
        demo='''
from mdpo.md2po import Md2Po
open('a.md', 'w').write('a\\n\\n<!-- mdpo-disable-next-line -->\\n')
open('b.md', 'w').write('b\\n\\nc\\n')
m = Md2Po(['a.md', 'b.md'], location=False)
m.extract()
assert [e.msgid for e in m.pofile] == ['a', 'b', 'c'], [e.msgid for e in m.pofile]
'''),
    'B12': dict(
        property='P03', needs='HTML with an enable command after a disable-next-block command',
        breaks='the enable command of mdpo2html also forgets the pending disable-next-block command',
        edits=[('mdpo2html/__init__.py', '''                    self.disable = False
                elif command in''', '''                    self.disable = self.disable_next_block = False
                elif command in''')],
        demo='''
from mdpo.mdpo2html import MdPo2HTML
open('a.po', 'w').write('msgid ""\\nmsgstr ""\\n\\nmsgid "a"\\nmsgstr "b"\\n')
c = '<!-- mdpo-disable -->\\n<!-- mdpo-disable-next-block -->\\n<!-- mdpo-enable -->\\n'
r = MdPo2HTML(['a.po']).translate(c + '<p>a</p>\\n<p>a</p>')
assert r.split() == ['<p>a</p>', '<p>b</p>'], r
'''),
    'B13': dict(
        property='P05', needs='a context command in a disable region, before an enable-next-block command',
        breaks='context commands inside disable regions are ignored',
        edits=[('md2po/__init__.py', '''            self.current_msgctxt = comment
''', '''            if not self.disable:
                self.current_msgctxt = comment
''')],
        demo='''
from mdpo.md2po import Md2Po
m = Md2Po('<!-- mdpo-disable -->\\n\\n<!-- mdpo-context c -->\\n\\n<!-- mdpo-enable-next-block -->\\n\\na\\n')
m.extract()
assert [(e.msgid, e.msgctxt) for e in m.pofile] == [('a', 'c')], [(e.msgid, e.msgctxt) for e in m.pofile]
'''),
    'B14': dict(
        property='P05', needs='two context commands before a message',
        breaks='the first context given for a message is taken by po2md instead of the last one',
        edits=[('po2md/__init__.py', '''            self.current_msgctxt = comment
''', '''            self.current_msgctxt = self.current_msgctxt or comment
''')],
        demo='''
from mdpo.po2md import Po2Md
open('a.po', 'w').write('msgid ""\\nmsgstr ""\\n\\nmsgctxt "d"\\nmsgid "a"\\nmsgstr "b"\\n')
r = Po2Md(['a.po']).translate('<!-- mdpo-context c -->\\n\\n<!-- mdpo-context d -->\\n\\na\\n')
assert r.split() == ['b'], r
'''),
    'B15': dict(
        property='P15', needs='a quote inside an ordered list',
        breaks='a quote inside an ordered list is not counted as a block',
        edits=[('md2po/__init__.py', '''            if self._quoteblocks_deep == 1:
''', '''            if self._quoteblocks_deep == 1 and not self._ols_deep:
''')],
        demo='''
from mdpo.md2po import Md2Po
open('a.md', 'w').write('1. x\\n\\n   > y\\n')
m = Md2Po(['a.md'])
m.extract()
o = [(e.msgid, e.occurrences[0][1]) for e in m.pofile]
assert o == [('x', 'block 1 (ordered list)'), ('y', 'block 2 (quote)')], o
'''),
    'B16': dict(
        property='P15', needs='a table inside an unordered list',
        breaks='a table inside an unordered list is counted as a top level block',
        edits=[('md2po/__init__.py', '''        elif block is md4c.BlockType.TABLE and not any([
            self._quoteblocks_deep,
            self._ols_deep,
            self._uls_deep,
        ]):
''', '''        elif block is md4c.BlockType.TABLE and not any([
            self._quoteblocks_deep,
            self._ols_deep,
        ]):
''')],
        demo='''
from mdpo.md2po import Md2Po
open('a.md', 'w').write('- x\\n\\n  | y |\\n  | --- |\\n  | z |\\n\\nw\\n')
m = Md2Po(['a.md'])
m.extract()
o = [(e.msgid, e.occurrences[0][1]) for e in m.pofile][1:]
b = 'block 1 (unordered list)'
assert o == [('y', b), ('z', b), ('w', 'block 2 (paragraph)')], o
'''),
    'B17': dict(
        property='P18', needs='two files, the second of which uses links but has no definitions of its own',
        breaks='the definitions of a file are stored again for the following files',
        edits=[('md2po/__init__.py', '''                self.link_references = None
                self._current_top''', '''                self.link_references = self.link_references or None
                self._current_top''')],
        demo='''
from mdpo.md2po import Md2Po
open('a.md', 'w').write('a [b][c]\\n\\n[c]: d\\n')
open('b.md', 'w').write('e [f](g)\\n')
m = Md2Po(['a.md', 'b.md'], location=False)
m.extract()
assert [e.msgid for e in m.found_entries].count('[c]: d') == 1, [e.msgid for e in m.found_entries]
'''),
    'B18': dict(
        property='P18', needs='two handlers of the definitions, only the first of which skips one of them',
        breaks='the last handler decides alone whether a definition is skipped',
        edits=[('md2po/__init__.py', '''                        if event(self, target, href, title) is False:
                            skip = True
''', '''                        skip = event(self, target, href, title) is False
''')],
        demo='''
from mdpo.md2po import markdown_to_pofile
evs = {'link_reference': [lambda self, t, h, ti: t != 'a', lambda self, t, h, ti: t != 'c']}
m = markdown_to_pofile('x [y][a] [z][c]\\n\\n[a]: u\\n\\n[b]: v\\n\\n[c]: w\\n', events=evs)
assert [e.msgid for e in m][1:] == ['[b]: v'], [e.msgid for e in m]
'''),
    'B19': dict(
        property='P01', needs='a PO file where an obsolete entry is before an active entry with the same text',
        breaks='the message is appended again although an active entry with that text is there',
        edits=[('md2po/__init__.py', '''        if entry not in self.pofile:
            self.pofile.append(entry)''', '''        if _equal_entry is None or _equal_entry.obsolete:
            self.pofile.append(entry)''')],
        demo='''
import polib
from mdpo.md2po import Md2Po
open('a.md', 'w').write('hello\\n')
open('a.po', 'w').write('#\\nmsgid ""\\nmsgstr ""\\n\\n#~ msgid "hello"\\n#~ msgstr "old"\\n\\nmsgid "hello"\\nmsgstr "new"\\n')
po = Md2Po(['a.md'], location=False, mark_not_found_as_obsolete=False).extract('a.po')
assert [e.msgid for e in po if not e.obsolete] == ['hello'], str(po)
'''),
    'B20': dict(
        property='P01', needs='the location option and an existing entry whose references are of other blocks',
        breaks='the translation that was there is lost when the message moved to another block',
        edits=[('md2po/__init__.py', '''            compare_msgstr=False,
            compare_occurrences=False,
        )

        if _equal''', '''            compare_msgstr=False,
            compare_occurrences=len(entry.occurrences) > 0,
        )

        if _equal''')],
        demo='''
from mdpo.md2po import Md2Po
open('a.md', 'w').write('# title\\n\\nhello\\n')
open('a.po', 'w').write('#\\nmsgid ""\\nmsgstr ""\\n\\n#: a.md:7\\nmsgid "hello"\\nmsgstr "hola"\\n')
m = Md2Po(['a.md'], location=True)
m.extract('a.po')
assert [e.msgstr for e in m.found_entries] == ['', 'hola'], [e.msgstr for e in m.found_entries]
'''),
    'B21': dict(
        property='P02', needs='an obsolete entry without translation whose text was extracted without translation',
        breaks='the obsolete entry is not dropped',
        edits=[('po.py', '''            if _equal_not_obsolete_found:
                pofile.remove''', '''            if _equal_not_obsolete_found and entry.msgstr:
                pofile.remove''')],
        demo='''
from mdpo.md2po import Md2Po
open('a.md', 'w').write('hello\\n')
open('a.po', 'w').write('#\\nmsgid ""\\nmsgstr ""\\n\\n#~ msgid "hello"\\n#~ msgstr ""\\n')
po = Md2Po(['a.md'], location=False).extract('a.po')
assert [e.msgid for e in po] == ['hello'], str(po)
'''),
    'B22': dict(
        property='P02', needs='a PO file with the same not extracted entry twice, and not found messages removed',
        breaks='one of the two entries is not removed',
        edits=[('po.py', '''            if not _equal_not_obsolete_found:
                entries_to''', '''            if not (_equal_not_obsolete_found or entry in entries_to_remove):
                entries_to''')],
        demo='''
from mdpo.md2po import Md2Po
open('a.md', 'w').write('hello\\n')
open('a.po', 'w').write('#\\nmsgid ""\\nmsgstr ""\\n\\nmsgid "bye"\\nmsgstr "x"\\n\\nmsgid "bye"\\nmsgstr "x"\\n')
po = Md2Po(['a.md'], location=False, preserve_not_found=False).extract('a.po')
assert [e.msgid for e in po] == ['hello'], str(po)
'''),
    'B23': dict(
        property='P06', needs='an HTML element whose text has spaces around, and an entry for the text without them',
        breaks='the message takes the translation of another text',
        edits=[('mdpo2html/__init__.py', '''                replacement = self.translations.get(_current_replacement)
''', '''                replacement = self.translations.get(
                    _current_replacement,
                ) or self.translations.get(_current_replacement.strip())
''')],
        demo='''
from mdpo.mdpo2html import MdPo2HTML
open('a.po', 'w').write('#\\nmsgid ""\\nmsgstr ""\\n\\nmsgid "May"\\nmsgstr "Mayo"\\n')
out = MdPo2HTML(['a.po']).translate('<p>May </p>\\n')
assert 'Mayo' not in out, out
'''),
    'B24': dict(
        property='P06', needs='two PO files, the second of which has an untranslated entry that the first translates',
        breaks='the translation of the first file is used instead of the original text',
        edits=[('po.py', '''            else:
                translations[entry.msgid] = entry.msgstr
    return''', '''            elif entry.msgstr or entry.msgid not in translations:
                translations[entry.msgid] = entry.msgstr
    return''')],
        demo='''
from mdpo.po2md import Po2Md
open('a.po', 'w').write('#\\nmsgid ""\\nmsgstr ""\\n\\nmsgid "May"\\nmsgstr "Mayo"\\n')
open('b.po', 'w').write('#\\nmsgid ""\\nmsgstr ""\\n\\nmsgid "May"\\nmsgstr ""\\n')
out = Po2Md(['a.po', 'b.po']).translate('\\nMay\\n')
assert out.strip() == 'May', out
'''),
    'B25': dict(
        property='P08', needs='a file that starts with an include command (or a message inside of the first HTML block)',
        breaks='the extractor crashes with KeyError looking for the name of the block',
        edits=[('md2po/__init__.py', '''                self._current_top_level_block_number += 1
                self._current_top_level_block_type = md4c.BlockType.HTML.value
''', '''                self._current_top_level_block_number += 1
''')],
        demo='''
from mdpo.md2po import Md2Po
open('a.md', 'w').write('<!-- mdpo-include some text -->\\n\\nfoo\\n')
Md2Po('a.md').extract()
'''),
    'B26': dict(
        property='P07', needs='a quote inside an item of an ordered list, after the text of the item',
        breaks='the extractor joins the text of the item with the text of the quote, and the translator looks up both apart',
        edits=[('md2po/__init__.py', '''            self._quoteblocks_deep += 1
            if self._inside_liblock:
''', '''            self._quoteblocks_deep += 1
            if self._inside_liblock and self._uls_deep:
''')],
        demo='''
from mdpo.md2po import Md2Po
from mdpo.po2md import Po2Md
open('a.md', 'w').write('1. foo\\n   > bar\\n')
po = Md2Po('a.md').extract()
for e in po:
    e.msgstr = e.msgstr or 'TRANSLATED'
po.save('a.po')
out = Po2Md(['a.po']).translate('a.md')
assert out.count('TRANSLATED') == 2, (out, [e.msgid for e in po])
'''),
    'B27': dict(
        property='P07', needs='an image with title, and a definition with the same destination but without title',
        breaks='the extractor takes the image as a referenced one, and the translator as an inline one',
        edits=[('md2po/__init__.py', '''                    if href == imgspan_src and title == imgspan_title:
''', '''                    if href == imgspan_src and (
                        not title or title == imgspan_title
                    ):
''')],
        demo='''
from mdpo.md2po import Md2Po
from mdpo.po2md import Po2Md
open('a.md', 'w').write('foo ![bar](baz "qux")\\n\\n[quux]: baz\\n')
po = Md2Po('a.md').extract()
for e in po:
    e.msgstr = e.msgstr or 'TRANSLATED'
po.save('a.po')
out = Po2Md(['a.po']).translate('a.md')
assert out.count('TRANSLATED') == 1, (out, [e.msgid for e in po])
'''),
    'B28': dict(
        property='P07', needs='a link whose text differs from the name of its definition only in case',
        breaks='the translator looks up the message without the name of the definition',
        edits=[('po2md/__init__.py', '''                if self._current_aspan_ref_target != self._current_aspan_text:
''', '''                if (self._current_aspan_ref_target.lower()
                        != self._current_aspan_text.lower()):
''')],
        demo='''
from mdpo.md2po import Md2Po
from mdpo.po2md import Po2Md
open('a.md', 'w').write('foo [Bar][bar]\\n\\n[bar]: baz\\n')
po = Md2Po('a.md').extract()
for e in po:
    e.msgstr = e.msgstr or 'TRANSLATED'
po.save('a.po')
out = Po2Md(['a.po']).translate('a.md')
assert out.count('TRANSLATED') == 1, (out, [e.msgid for e in po])
'''),
}
