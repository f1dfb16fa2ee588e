#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
M='src/mdpo/md2po/__init__.py'; P='src/mdpo/po2md/__init__.py'; H='src/mdpo/mdpo2html/__init__.py'
W='src/mdpo/md2po2md/__init__.py'; PO='src/mdpo/po.py'; PL='src/mdpo/polib.py'; T='src/mdpo/text.py'
C='src/mdpo/command.py'; IO='src/mdpo/io.py'; EV='src/mdpo/event.py'; MD='src/mdpo/md.py'
CL='src/mdpo/cli.py'
MAINS=['src/mdpo/md2po/__main__.py','src/mdpo/po2md/__main__.py','src/mdpo/mdpo2html/__main__.py','src/mdpo/md2po2md/__main__.py']
props=[]
def prop(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,title
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

prop('P01','Re-extraction never loses or alters existing translations',
 "When a message is extracted over an existing PO file, it takes the translation of the first PO entry (active or obsolete, without plural forms) with the same text and context if that translation is not empty, together with the fuzzy mark of that entry; otherwise it takes the default translation. "
 "Extraction appends a message to the PO file only if no active entry with that text and context is there (malformed PO files with such an entry twice aside), never alters the text, context, translation, flags or comments of the entries that were there, and records every extracted message that is not in the list of ignored messages as found.",
 ['inputs','histories'],'all PO files, messages, contexts, default translations, fuzzy marks and ignore lists',
 'tests sample a few PO files with one or two entries; the guarantee is over every combination of existing entries and extracted messages',
 [M,PO,PL],[('message storing','Md2Po._save_msgid'),('entry search','find_entry_in_entries'),('entry comparison','poentry__cmp__')])
prop('P02','Reconciliation marks or removes exactly the messages no longer extracted',
 "After an extraction in the default mode, every active PO entry whose text, context and plural form were extracted stays active, every other active entry is marked obsolete, an obsolete entry is dropped exactly when an extracted message has the same text, context, plural form and translation and otherwise stays obsolete, and every surviving entry keeps its place and content. "
 "When not found messages are not preserved, instead exactly the active entries that were not extracted and the obsolete entries that would not be dropped above are removed and no entry is changed. "
 "When not found messages are preserved but not marked, nothing is removed or marked.",
 ['inputs','histories'],'all PO files (entries, obsolete marks, translations, order, length) and all sets of extracted messages',
 'the existing tests reconcile files with one missing message; the failures are about interactions between neighbouring entries and translations that differ',
 [PO,PL,M],[('obsolete marking','mark_not_found_entries_as_obsoletes'),('removal','remove_not_found_entries'),('entry search','find_entry_in_entries'),('mode selection','Md2Po.extract')])
prop('P03','Disable and enable commands select exactly the intended messages',
 "A message is extracted by md2po (translated by po2md and mdpo2html) if and only if an enable-next-block command is pending for it, or neither a disable region is open nor a disable-next-block command is pending for it; otherwise it is recorded as disabled and left untranslated. "
 "The pending next-block commands are used up by exactly one message, disable and enable regions persist until the opposite command, the -block and -line variants mean the same, and all of these marks are cleared when an extractor goes on with the next file or a translation ends.",
 ['inputs','histories'],'all interleavings of commands and messages, all states of pending commands',
 'tests contain some fixed sequences of commands; the behaviour depends on the whole history of commands and messages',
 [M,P,H],[('message flush','Md2Po._save_current_msgid'),('message flush','Po2Md._save_current_msgid'),('command dispatch','Md2Po.command, Po2Md.command'),('HTML commands','MdPo2HTML.handle_comment, MdPo2HTML._process_replacer'),('reset between files','Md2Po.extract, Po2Md.translate')])
prop('P04','Command names, prefixes and aliases resolve to the documented commands',
 "A command name is accepted with and without the mdpo- prefix if and only if it is one of the thirteen documented commands, and its normal form is the prefixed one. "
 "A mapping of aliases is accepted if and only if every target is accepted, in which case every alias maps to the normal form of its target and there are no other aliases; otherwise the tool refuses it with a ValueError that names the target. "
 "In a document, a comment whose command is an alias does exactly what its target command does, with the same comment text.",
 ['inputs','configurations'],'all strings used as command names and all alias mappings of any size',
 'tests try a few aliases; the guarantee is over all names and mappings',
 [C,M,P,H],[('normalization','normalize_mdpo_command'),('alias validation','normalize_mdpo_command_aliases'),('alias resolution','Md2Po._process_command, Po2Md._process_command, MdPo2HTML.handle_comment')])
prop('P05','Contexts and translator comments apply to exactly the next message',
 "A context command or translator comment command in a Markdown document applies to the next message and to no other one: the message is stored (looked up, for contexts) with exactly the last context and the last comment given since the previous message, and the one after it starts without them. "
 "In md2po the translator, context and include commands without text are refused with a ValueError, and an include command extracts exactly its text as a message with the pending context and comment.",
 ['inputs','histories'],'all command sequences and all texts',
 'tests place single commands before single messages',
 [M,P],[('command dispatch','Md2Po.command, Po2Md.command'),('message flush','Md2Po._save_current_msgid, Po2Md._save_current_msgid'),('message storing','Md2Po._save_msgid')])
prop('P06','Messages are translated by exact text and context, else left untouched',
 "A message is replaced by the translation that the given PO files have for exactly its text and exactly its context (none for messages without context), the last entry (obsolete or fuzzy ones included) winning if there are several; mdpo2html looks up link references with their targets in place; if there is no such entry or its translation is empty, the original text is used unchanged. "
 "Each PO file matched by the given paths and globs and not ignored is read exactly once, in the order in which the arguments match them.",
 ['inputs','configurations'],'all sets of PO files, entries, messages and contexts',
 'tests look up messages in small PO files',
 [PO,P,H],[('translations mapping','pofiles_to_unique_translations_dicts'),('lookup','Po2Md._translate_msgid'),('lookup','MdPo2HTML._process_replacer'),('PO files','paths_or_globs_to_unique_pofiles')])
prop('P07','The translator rebuilds the same messages that the extractor stored',
 "For every paragraph, heading, list item or table cell read with the default options, the text that po2md looks up is character by character the message that md2po stores: same markup for bold, italic, strikethrough, code, math, wikilinks, inline and referenced links and images, same escapes, same joining of lines and same boundaries between messages.",
 ['inputs'],'all sequences of spans, texts and attributes that a parser can deliver',
 'both tools are tested against separate expected outputs; the agreement of their two implementations over all markup combinations is not tested',
 [M,P],[('extractor','Md2Po.not_plaintext_enter_span, not_plaintext_leave_span, text, enter_block, leave_block'),('translator','Po2Md.enter_span, leave_span, text, enter_block, leave_block')])
prop('P08','No Markdown construct makes the extractor or the translator crash',
 "Reading any well nested sequence of Markdown blocks with any spans (also the unbalanced ones that the parser delivers for malformed links), attributes (empty ones included) and texts with the default options, the extractor and the translator never end with an unhandled internal error; the only error that a document can cause is the documented refusal (a ValueError) by the extractor of translator, context and include commands without text.",
 ['inputs'],'all documents, as sequences of parser callbacks of any length',
 'tests parse some hundreds of fixed documents',
 [M,P],[('extractor callbacks','Md2Po.enter_block, leave_block, enter_span, leave_span, text'),('translator callbacks','Po2Md.enter_block, leave_block, enter_span, leave_span, text')])
prop('P09','Saved files hold the output and check mode reports every change',
 "After saving, the file holds exactly the produced content, and in check mode the tool reports a change (command line exit code 2) if and only if some saved file did not exist before or had a different content; a file that already had that content is not written. "
 "Without check mode no change is ever reported.",
 ['inputs','configurations'],'all file contents, previous contents and option combinations',
 'tests save a few files',
 [IO,M,P,H]+MAINS,[('save','save_file_checking_file_changed'),('save selection','Md2Po.extract, Po2Md.translate, MdPo2HTML.translate'),('exit codes','run')])
prop('P10','PO quality checks report exactly the offending lines and exit codes',
 "The obsolete, fuzzy and empty translation checks report, for each given PO file in order, exactly: the line of each first line of a run of obsolete lines, the line of each flags comment containing fuzzy, and the line of each translation that starts and ends empty (followed by a blank line or the end of the file) and is not the one of the header. "
 "Each command line tool writes all the found locations to its error output and exits with 3, 4 or 5 for obsolete, fuzzy and empty ones (the highest of those requested with something found), else with 2 if its check mode found a change, else with 0.",
 ['inputs','configurations'],'all PO files as sequences of lines and all option combinations',
 'tests use one or two PO files per option',
 [PO]+MAINS,[('line scanners','parse_obsoletes_from_content_lines, parse_fuzzy_from_content_lines, parse_empty_msgstr_from_content_lines'),('file loops','check_obsolete_entries_in_filepaths, check_fuzzy_entries_in_filepaths, check_empty_msgstrs_in_filepaths'),('exit codes','run')])
prop('P11','Code spans are wrapped by a delimiter that their text does not contain',
 "The number of delimiter characters chosen to wrap a code span is at least one, is not the length of any maximal run of that character in the text, and is the smallest such number; a text without that character takes the given default (one). "
 "The extractor and the translator wrap a code span, also inside a link, with exactly that many characters on both sides, taking into account the whole text of the span.",
 ['inputs'],'all texts and delimiter characters',
 'tests try a handful of texts',
 [T,M,P],[('run length','min_not_max_chars_in_a_row'),('code spans','Md2Po.not_plaintext_leave_span, Po2Md.leave_span')])
prop('P12','A custom event handler that returns False skips exactly its step',
 "For every event, all the handlers given for it are called once each in order with the documented arguments; if some of them returns exactly False the step is skipped, leaving the state of the tool as the handlers left it, and otherwise the step goes on as if there were no handlers. "
 "Events without handlers never skip a step.",
 ['inputs','programs'],'all lists of handlers, return values and events',
 'tests try one handler per event with fixed documents',
 [EV,M,P],[('event dispatch','raise_skip_event'),('steps','all callbacks of Md2Po and Po2Md')])
prop('P13','Input selection reads every matched file that is not ignored and no other',
 "Given a list of paths, the ignore filter keeps exactly those whose path, file name, parent directory name and parent directory path are not ignored, sorted and with their repetitions. "
 "An input that matches files as a glob or is a list is read as files, anything else (an invalid pattern included) is taken as content itself, and a single input is read if and only if it is an existing file.",
 ['inputs','configurations'],'all lists of paths, ignore lists and inputs',
 'tests use a few directories',
 [IO],[('ignore filter','filter_paths'),('input kind','to_files_or_content'),('file or content','to_file_content_if_is_file')])
prop('P14','Pairs and widths given as text arguments are parsed exactly or refused',
 "Parsing a list of key:value pairs gives a mapping with exactly the keys and values of the parsed pairs, raising ValueError naming the first pair that cannot be parsed and KeyError naming the first repeated key, whichever comes first; on the command line both write a message to the error output and exit with code 1. "
 "A wrapping width is a positive integer part of the given number, or unlimited if it is zero, negative or infinite; anything else is refused with a ValueError (a message and exit code 1 on the command line).",
 ['inputs'],'all argument strings and lists of them',
 'tests try a few values',
 [T,CL],[('pairs','parse_escaped_pairs'),('command line','parse_escaped_pairs_cli_argument'),('width','parse_strint_0_inf, parse_wrapwidth_argument'),('events','parse_event_argument')])
prop('P15','Location references number the top level blocks of each file',
 "When locations are enabled and a file is being extracted, each message carries exactly one reference with the path of its file, the number of the last top level block started (starting at 1 in each file) and its kind; otherwise it carries none. "
 "Paragraphs, code, headings, HTML, tables and lists count as top level blocks exactly when they are not inside a quote or a list (a paragraph neither inside a heading), and a quote exactly when it is not inside another quote.",
 ['inputs','histories'],'all nestings of blocks and all sequences of files',
 'tests check some fixed nestings',
 [M],[('block counting','Md2Po.enter_block, Md2Po.leave_block'),('references','Md2Po._save_msgid'),('reset between files','Md2Po.extract')])
prop('P16','The combined tool processes every file for every language exactly once',
 "The combined tool extracts and then translates each matched Markdown file for each language exactly once, files in the outer order and languages in the inner one, the translation reading only the PO file just written and both steps receiving the same extensions, aliases, encodings, location, wrapping and debugging options given. "
 "The PO and Markdown paths are those of the output schema for that language and file name, the change reported is the disjunction of the changes of all steps, and the quality checks are run once per PO file if and only if they were requested; a schema without language or a glob without matches is refused before writing anything.",
 ['inputs','configurations'],'all lists of files and languages, schemas and option combinations',
 'tests run some schemas with one or two languages',
 [W],[('orchestration','markdown_to_pofile_to_markdown')])
prop('P17','Command line runs leave the process environment as they found it',
 "After a run of a command line tool or any use of the temporary environment it is based on, whether it ends normally, raises or exits, every environment variable set for the run has its previous value again, or does not exist if it did not exist before, and no other variable was changed by it; during the run the variables have the values of the run.",
 ['inputs','fault_sequences'],'all environments, sets of temporary variables and ways of ending',
 'tests do not look at the environment after failures',
 [IO]+MAINS,[('temporary environment','environ'),('runs','run')])
prop('P18','Link reference definitions are stored and written once the document ends',
 "At the end of each document md2po (except in plain text mode) stores for each link reference definition found in it, in order, a message with its target, destination and title (taking the definition itself as fuzzy default translation), regardless of open disable regions and of pending next-block disable commands, and po2md appends, once for each different destination and title, its translation or the definition itself. "
 "Definitions skipped by a handler of their event are neither stored nor written, and a document without links or images, or without definitions, adds nothing.",
 ['inputs','histories'],'all lists of definitions, disable states and handlers',
 'tests have a few definitions per document',
 [M,P,MD],[('extraction','Md2Po._dump_link_references'),('translation','Po2Md._append_link_references')])
prop('P19','Translated Markdown renders to the same document structure',
 "With an empty set of translations, rendering the Markdown written by po2md gives the same HTML as rendering its input.",
 ['inputs'],'all Markdown documents',
 'tests compare fixed inputs and outputs',
 [P],[('output building','Po2Md.enter_block, Po2Md.leave_block')])
prop('P20','Written PO files parse back to the same entries',
 "Parsing the PO file that an extraction writes gives the same entries that the extraction returned, for every wrapping width and encoding.",
 ['inputs','configurations'],'all PO files, widths and encodings',
 'tests parse back a few files',
 [M],[('saving','Md2Po.extract')])
prop('P21','Translated HTML keeps the elements around the translated text',
 "HTML produced by the HTML translator has, outside of the translated messages, the same elements and attributes in the same order as its input.",
 ['inputs'],'all HTML documents produced from Markdown',
 'tests compare fixed inputs and outputs',
 [H],[('template building','MdPo2HTML._process_replacer')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(props))
