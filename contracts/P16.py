"""P16: the combined tool processes every file for every language exactly once."""
from contracts.common import *
from pyvc import models
from pyvc.core import sort_of

RUN = 'mdpo.md2po2md.markdown_to_pofile_to_markdown'
ROW = ('tuple', 'str', 'str', 'str', 'str')
SETS = ('set', 'str')
CHECKS = (('no_obsolete', 'mdpo.po.check_obsolete_entries_in_filepaths'),
          ('no_fuzzy', 'mdpo.po.check_fuzzy_entries_in_filepaths'),
          ('no_empty_msgstr', 'mdpo.po.check_empty_msgstrs_in_filepaths'))
OPTIONS = dict(extensions='extensions', command_aliases='aliases', debug='debug', location='location',
               po_wrapwidth='po width', md_wrapwidth='md width', include_codeblocks='code blocks')


def files_of(I, arg):
    """The files that a glob, or a list of globs, matches (a single existing file by its escaped path)."""
    arg = I.force(arg)
    if isinstance(arg, VList):
        if not (arg.concrete and len(arg.get()) == 1):
            return None
        arg = I.force(arg.get()[0])
    e = arg.e if isinstance(arg, SV) else None
    if e is not None and z3.is_app(e) and e.num_args() == 1 and 'glob.escape' in e.decl().name():
        return SV('str', e.arg(0))
    return None


def fmt(I, schema, **fields):
    return lib.call_method(I, schema, 'format', [], fields)


def os_uf(I, name, *a):
    return lib.uf(I, name, list(a), 'str')


def _term(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def paths(I, schema, filepath, lang, dirs):
    """PO and Markdown paths of the schema for a file and a language, and the directories after them."""
    inside = lambda p, ds: I.truth(SV('bool', lib.contains(I, ds, p)))
    split = lambda p: lib.uf(I, 'os.path.splitext', [p], ('tuple', 'str', 'str'))
    base = os_uf(I, 'os.path.basename', filepath)
    name = lib.getitem(I, split(base), 0)
    po = fmt(I, schema, lang=lang, basename=name)
    po_base = os_uf(I, 'os.path.basename', po)
    dots = lib.call_method(I, po_base, 'count', ['.'], {})
    is_file = z3.Or(lib.truth_term(I, dots), _term(I.eq(name, po_base)))
    folder = os_uf(I, 'os.path.dirname', po) if I.truth(SV('bool', is_file)) else po
    dirs = core.dec(I.ctx, models.made(I, dirs, os_uf(I, 'os.path.abspath', folder)), SETS)
    if inside(po, dirs):
        po = os_uf(I, 'os.path.join/2', lib.call_method(I, po, 'rstrip', ['/'], {}), cat(I, base, '.po'))
    if not I.truth(lib.call_method(I, po, 'endswith', ['.po'], {})):
        po = cat(I, po, '.po')
    md = fmt(I, schema, lang=lang, basename=name)
    if inside(md, dirs):
        md = os_uf(I, 'os.path.join/2', lib.call_method(I, md, 'rstrip', ['/'], {}), base)
    return po, md, dirs


def changed(I, steps):
    """Whether the last of these steps changed its file: anything, but the same for the same history."""
    return SV('bool', lib.truth_term(I, lib.uf(I, 'step changes its file', [steps], 'bool')))


def combined(check, on, own):
    """The whole run, for any files, languages, schema and options."""
    def f(h):
        I = h.I
        I.env['fs.dirs'] = True
        ctx = I.ctx
        langs = h.fresh(('list', 'str'), 'langs')
        pattern = h.fresh('str', 'input_paths_glob')
        schema = h.fresh('str', 'schema')
        h.assume(z3.Contains(schema.e, S('{lang}')))
        # fields that are not documented are not in the schema
        h.assume(z3.Not(z3.Contains(schema.e, S('{ext}'))))
        invalid = lib.truth_term(I, lib.uf(I, 'glob raises re.error', [pattern], 'bool'))
        files = lib.uf(I, 'glob.glob', [pattern], ('list', 'str'))
        h.assume(z3.And(z3.Not(invalid), z3.Length(files.get().e) > 0))
        opts = {k: h.fresh(('opaque', n), k) for k, n in OPTIONS.items()}
        enc = {k: h.fresh('str', k) for k in ('po_encoding', 'md_encoding')}
        extra = {k: h.fresh(('opaque', 'own'), k) for k in ('md2po_kwargs', 'po2md_kwargs')}
        steps = empty(I, ROW)
        dirs = models.directories(I)
        results = {k: [] for k, _ in CHECKS}

        # ---- what the property asks for each file and language
        comps = [('dirs', SETS), ('steps', ('list', ROW)), ('changed', 'bool')] + \
                [(k, ('list', 'str')) for k, _ in CHECKS if k in on]

        def each(filepath):
            def step(I, st, lang, j):
                dirs, steps, ch, *found = st
                po, md, dirs = paths(I, schema, filepath, lang, dirs)
                done = append(I, steps, ('extract', filepath, po, ''))
                both = append(I, done, ('translate', filepath, po, md))
                if check:
                    ch = SV('bool', z3.Or(lib.truth_term(I, ch), changed(I, done).e, changed(I, both).e))
                found = [extend(I, r, lib.uf(I, k, [po, done], ('list', 'str')))
                         for r, (k, _) in zip(found, comps[3:])]
                return (dirs, both, ch, *found)
            return step

        def file(I, st, filepath, i):
            return h.fold('languages', langs, comps, st, each(filepath), caps=(filepath,) + tuple(st)).total()
        start = (core.dec(ctx, dirs.get(), SETS), empty(I, ROW), False) + tuple(empty(I) for _ in comps[3:])
        want = h.fold('files', files, comps, start, file)

        # ---- what the steps get
        def kwargs(v):
            kw = v['kwargs']
            return {k: lib.getitem(I, kw, k) for k in
                    [I.force(x) for x in lib.to_list(I, kw).get()]}

        def shared(kw, what):
            for k in ('extensions', 'command_aliases', 'debug'):
                h.check(f'{what}: {k} is given', k in kw)
                h.check(f'{what}: {k} as given', h.eq(kw[k], opts[k]))
            h.check(f'{what}: check mode as given', h.eq(kw.get('_check_saved_files_changed', False), check))

        def md2po(I, v):
            o, kw = v['self'], kwargs(v)
            one = files_of(I, list(v.values())[1])
            h.check('the extractor reads one file', one is not None)
            shared(kw, 'extraction')
            for k in ('location', 'include_codeblocks'):
                h.check(f'extraction: {k} as given', k in kw and h.eq(kw[k], opts[k]))
            known = {'extensions', 'command_aliases', 'debug', 'location', 'include_codeblocks',
                     '_check_saved_files_changed'}
            h.check('extraction: its own options and no others',
                    set(kw) == known | ({'own'} if own else set()) and
                    (not own or h.eq(kw['own'], extra['md2po_kwargs'])))
            o.fields['file'] = one
            o.fields['_saved_files_changed'] = False if check else None

        def po2md(I, v):
            o, kw = v['self'], kwargs(v)
            one = files_of(I, list(v.values())[1])
            h.check('the translator reads one PO file', one is not None)
            shared(kw, 'translation')
            h.check('translation: the width as given', 'wrapwidth' in kw and h.eq(kw['wrapwidth'], opts['md_wrapwidth']))
            h.check('translation: the PO encoding as given', h.eq(v['po_encoding'], enc['po_encoding']))
            known = {'extensions', 'command_aliases', 'debug', 'wrapwidth', '_check_saved_files_changed'}
            h.check('translation: its own options and no others',
                    set(kw) == known | ({'own'} if own else set()) and
                    (not own or h.eq(kw['own'], extra['po2md_kwargs'])))
            h.check('translation: no PO file is ignored', not I.truth(v['ignore']))
            o.fields['file'] = one
            o.fields['_saved_files_changed'] = False if check else None

        def did(I, o, row):
            lib.list_append(I, steps, row)
            if check:
                o.fields['_saved_files_changed'] = changed(I, steps)

        def extract(I, v):
            h.check('extraction: it is saved', h.eq(v['save'], True))
            h.check('extraction: the PO encoding as given', h.eq(v['po_encoding'], enc['po_encoding']))
            h.check('extraction: the Markdown encoding as given', h.eq(v['md_encoding'], enc['md_encoding']))
            h.check('extraction: the width as given', h.eq(v['wrapwidth'], opts['po_wrapwidth']))
            did(I, v['self'], ('extract', v['self'].fields['file'], v['po_filepath'], ''))
            return I.ctx.fresh(('opaque', 'pofile'), 'pofile')

        def translate(I, v):
            h.check('translation: the Markdown encoding as given', h.eq(v['md_encoding'], enc['md_encoding']))
            did(I, v['self'], ('translate', v['filepath_or_content'], v['self'].fields['file'], v['save']))
            return I.ctx.fresh('str', 'output')
        I.contracts[MD2PO + '.__init__'] = md2po
        I.contracts[MD2PO + '.extract'] = extract
        I.contracts[PO2MD + '.__init__'] = po2md
        I.contracts[PO2MD + '.translate'] = translate

        for k, q in CHECKS:
            def quality(I, v, k=k):
                h.check(f'{k}: the check is run only if it was requested', k in on)
                ps = lib.to_list(I, v['filenames'])
                h.check(f'{k}: one PO file is checked', ps.concrete and len(ps.get()) == 1)
                s = steps.get()
                before = core.dec(ctx, without_last(I, s), ('list', ROW))
                return lib.uf(I, k, [ps.get()[0], before], ('list', 'str'))
            I.contracts[q] = quality

        def without_last(I, s):
            from pyvc.core import flat_concat
            if isinstance(s, list):
                return core.enc(ctx, VList(ctx, s[:-1], T=ROW), ('list', ROW))
            ps = flat_concat(s.e)
            h.check('the PO file is checked after its extraction', len(ps) >= 2)
            return z3.Concat(*ps[:-1]) if len(ps) > 2 else ps[0]
        kw = dict(opts, **enc, _check_saved_files_changed=check)
        kw.update({k: k in on for k, _ in CHECKS})
        if own:
            kw.update({k: VDict(ctx, {'own': x}) for k, x in extra.items()})
        r = h.call(RUN, langs, pattern, schema, **kw)
        _, trace, ch, *found = want.total()
        h.check('exactly one extraction and then one translation for each file and language, in order',
                h.eq(steps, trace))
        if check:
            h.check('the change of some step is reported', h.eq(lib.getitem(I, r, 0), ch))
        else:
            h.check('no change is reported', not I.truth(lib.getitem(I, r, 0)))
        found = dict(zip([k for k, _ in comps[3:]], found))
        for n, (k, _) in enumerate(CHECKS):
            h.check(f'{k}: the locations of each PO file',
                    h.eq(h.list_of(lib.getitem(I, r, n + 1)), found.get(k, empty(I))))
    return Task(f'combined run, check={check}, {"+".join(sorted(on)) or "no checks"}{", own options" if own else ""}',
                f, functions=(RUN,))


def refused(case):
    """Nothing is done with a schema without language or a glob without files."""
    def f(h):
        I = h.I
        I.env['fs.dirs'] = True
        langs = h.fresh(('list', 'str'), 'langs')
        pattern = h.fresh('str', 'input_paths_glob')
        schema = h.fresh('str', 'schema')
        invalid = lib.truth_term(I, lib.uf(I, 'glob raises re.error', [pattern], 'bool'))
        files = lib.uf(I, 'glob.glob', [pattern], ('list', 'str'))
        lang = z3.Contains(schema.e, S('{lang}'))
        if case == 'schema':
            h.assume(z3.Not(lang))
        else:
            h.assume(z3.And(lang, z3.Or(invalid, z3.Length(files.get().e) == 0)))
        dirs = models.directories(I).get()
        seen = []
        for q in (MD2PO, PO2MD):
            I.contracts[q] = lambda I, a, k: seen.append(q)
        st, e = h.outcome(RUN, langs, pattern, schema)
        h.check('it is refused', st == 'raise' and issubclass(
            e.cls, ValueError if case == 'schema' else FileNotFoundError))
        h.check('nothing is done', not seen)
        h.check('no directory is made', models.directories(I).get().eq(dirs))
        h.check('no file is written', I.ctx.ghost['writes'].concrete and not I.ctx.ghost['writes'].get())
    return Task(f'refused {case}', f, functions=(RUN,))


def command_line(h):
    """run(): every option of the command line is the argument of the same name."""
    I = h.I
    names = dict(langs=0, input_paths_glob=1, output_paths_schema=2)
    same = ['langs', 'input_paths_glob', 'output_paths_schema', 'extensions', 'command_aliases', 'debug', 'location',
            'po_wrapwidth', 'md_wrapwidth', 'po_encoding', 'md_encoding', 'include_codeblocks', 'no_obsolete',
            'no_fuzzy', 'no_empty_msgstr']
    types = {k: ('opaque', k) for k in same}
    types.update(no_obsolete='bool', no_fuzzy='bool', no_empty_msgstr='bool', check_saved_files_changed='bool')
    opts = unknown_instance(I, types, 'options')
    mod = 'mdpo.md2po2md.__main__'
    I.contracts[mod + '.parse_options'] = lambda I, v: opts
    calls = []

    def combined(I, v):
        calls.append(1)
        for k in same:
            h.check(f'{k} as given', h.eq(v[k], lib.getattr_(I, opts, k)))
        h.check('check mode as given', h.eq(v['_check_saved_files_changed'],
                                            lib.getattr_(I, opts, 'check_saved_files_changed')))
        return (I.ctx.fresh('bool', 'changed'),) + tuple(I.ctx.fresh(('list', 'str'), 'locations') for _ in range(3))
    I.module(mod)
    I.contracts[RUN] = combined
    h.call(mod + '.run')
    h.check('the files are processed once', len(calls) == 1)


FLAGS = [k for k, _ in CHECKS]
TASKS = [combined(c, {k for j, k in enumerate(FLAGS) if m >> j & 1}, False) for c in (False, True) for m in range(8)] + [
    combined(c, set(FLAGS), True) for c in (False, True)] + [
    refused('schema'), refused('glob'), Task('md2po2md command line', command_line, functions=(
        'mdpo.md2po2md.__main__.run',))]
TRUSTED = ['the schema has no other fields than {lang} and {basename}',
           'glob.glob(glob.escape(path)) is [path] for an existing file',
           'os.makedirs makes the directories as a function of those that exist and of the path; Md2Po.extract and'
           ' Po2Md.translate make none']
