"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deductive verification of the interpreted source (contracts, inferred and checked loop invariants, SMT)'
CLAIMED = {
    'P10': 'all obligations of the scans, of the file checks and of the four run() functions are discharged for all '
           'inputs; argparse results and the extraction itself are arbitrary values there',
    'P14': 'the parsers of pairs and widths and the four command lines are proved for all inputs; float() and int() of'
           ' texts are uninterpreted functions',
    'P04': 'name resolution, alias mappings, command dispatch in the three tools are proved for all inputs; the regular'
           ' expression that finds the command in a comment is a trusted function',
    'P11': 'minimality of the delimiter for every text, and the wrapping by both tools of spans made of any number of'
           ' texts, are proved; default delimiters in the tool level contract',
    'P13': 'filter, disambiguation, selection and reading by the extractor and both translators are proved for all'
           ' inputs and path lists; glob, basename and dirname are uninterpreted functions',
    'P09': 'save function, extract/translate of the three tools and the command lines are proved for all contents, paths,'
           ' encodings and previous files; codecs and the text of polib are uninterpreted functions',
    'P12': 'the event mechanism is proved for any handlers; every step of both tools is proved, from any state, to call'
           ' it first with the documented arguments, to end there if it skips and not to depend on the events'
           ' afterwards; the import of handlers given as a path is trusted',
    'P17': 'the temporary environment, its nested uses and the four run() functions are proved for any names, values and'
           ' outcomes; the number of variables set by one use is 0 to 3 in the contract of the context manager itself',
    'P16': 'the combined run is proved for any matched files, languages, schemas, options and outcomes of the steps, with'
           ' the contracts of the extractor, the translator and the checks; schemas with other fields are refused by'
           ' format() and excluded; the path functions of the standard library are uninterpreted',
    'P03': 'every step of the three tools, the save of the current message, the commands and the starts and ends of files are'
           ' proved from any state against the reference selection; the steps of the parsers are arbitrary calls',
    'P05': 'every step of the extractor, from any state, is proved to keep, use or leave the pending context and comments'
           ' as stated, and the stored entry to carry them; polib entries are modelled by their attributes',
    'P15': 'every step of the extractor, from any state, counts blocks by the open ones around them (well nested events);'
           ' the references of each entry and the start of each file are proved for all paths and numbers',
    'P18': 'proved from any state for all lists of definitions, 0 to 2 handlers (any number in P12), all files and steps;'
           ' the regular expression of one line is an uninterpreted function; not in plain text mode',
    'P01': 'proved for all PO files (lists of entries of any length and contents), messages and states; polib files are'
           ' modelled as the list of their entries, malformed files with a duplicated active entry aside',
    'P02': 'proved for all PO files and recorded messages (lists of any length), by invariants over an arbitrary entry'
           ' and induction lemmas over the search; the entries of a PO file are taken to be different objects',
    'P06': 'proved for all PO files, entries, globs and states; glob.glob, filter_paths (P13) and polib.pofile are'
           ' functions of their arguments; the pieces of an HTML element are arbitrary',
    'P08': 'proved for all states that fulfil the representation invariants and all events of well nested blocks;'
           ' trusted: md4c nests blocks well (nothing is assumed of spans), md_ulb_pwrap raises nothing',
    'P07': 'proved by product verification of both tools for all related states and events; default options; trusted: md4c'
           ' delivers well nested blocks, only texts inside code spans and formulas, and leaves what it enters',
}
NA = {
    'P19': 'rendering equivalence depends on the CommonMark parser md4c (C code) on both sides; no contract on the'
           ' Python code within reach can express what md4c parses from the produced text',
    'P20': 'depends on the PO writer and parser of polib, a dependency whose text format functions (wrapping, escapes)'
           ' are outside the verified code; only assumed contracts of polib could carry it',
    'P21': 'depends on html.parser callbacks and on the positional template replacement of the HTML translator, whose'
           ' relation to the input needs a specification of the HTML tokenizer of the standard library',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        note = CLAIMED[i]
        level = 'proof'
        if isinstance(note, tuple):
            level, note = note
        checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} --tier quick',
                           thorough_cmd=f'python3-vt check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=T, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'the contracts of this property are not finished yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5" && /opt/venv/bin/python -c "import mdpo, md4c, polib"',
               checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
