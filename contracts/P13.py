"""P13: input selection reads every matched file that is not ignored and no other."""
from contracts.common import *
from pyvc import models

IO = 'mdpo.io.'
HTML = 'mdpo.mdpo2html.MdPo2HTML'


def parent(I, p):
    """Text of the path before its last separator (empty without separator)."""
    parts = lib.call_method(I, p, 'split', ['/'], {})
    return lib.call_method(I, '/', 'join', [lib.getslice(I, parts, None, -1, None)], {})


def is_ignored(I, p, ignore):
    base = lib.uf(I, 'os.path.basename', [p], 'str')
    dbase = lib.uf(I, 'os.path.basename', [lib.uf(I, 'os.path.dirname', [p], 'str')], 'str')
    ts = [lib.contains(I, ignore, x) for x in (p, base, dbase, parent(I, p))]
    return z3.Or([t if z3.is_expr(t) else z3.BoolVal(t) for t in ts])


def kept_fold(h, paths, ignore):
    return h.fold('kept', paths, [('kept', ('list', 'str'))], (empty(h.I),), lambda I, st, x, i: (
        (st[0],) if I.truth(is_ignored(I, x, ignore)) else (append(I, st[0], x),)), caps=(ignore,))


def filtered(kind):
    def f(h):
        I = h.I
        paths = h.fresh(('list', 'str'), 'paths')
        ignore = h.fresh((kind, 'str'), 'ignore')
        k = kept_fold(h, paths, ignore)
        r = h.call(IO + 'filter_paths', paths, ignore_paths=ignore)
        want = lib.b_sorted(I, [k.total()[0]], {})
        h.check('exactly the paths that are not ignored, sorted, with repetitions', h.eq(h.list_of(r), want))
    return Task(f'filter ({kind})', f, functions=(IO + 'filter_paths',))


def default_ignore(h):
    """Without ignored paths nothing is left out."""
    I = h.I
    paths = h.fresh(('list', 'str'), 'paths')
    k = h.fold('all', paths, [('all', ('list', 'str'))], (empty(I),),
               lambda I, st, x, i: (append(I, st[0], x),))
    r = h.call(IO + 'filter_paths', paths)
    h.check('everything is kept, sorted', h.eq(h.list_of(r), lib.b_sorted(I, [k.total()[0]], {})))


def text_input(h):
    I = h.I
    v = h.fresh('str', 'value')
    r = h.call(IO + 'to_files_or_content', v)
    matched = lib.uf(I, 'glob.glob', [v], ('list', 'str'))
    invalid = lib.truth_term(I, lib.uf(I, 'glob raises re.error', [v], 'bool'))
    some = z3.And(z3.Not(invalid), z3.Length(matched.get().e) > 0)
    h.check('files exactly if something is matched', h.term(r[0]) == some)
    if h.truth(some):
        h.check('the matched files', h.eq(h.list_of(r[1]), matched))
    else:
        h.check('the content itself', h.eq(r[1], v))


def list_input(h):
    v = h.fresh(('list', 'str'), 'value')
    r = h.call(IO + 'to_files_or_content', v)
    h.check('a list is a list of files', h.term(r[0]))
    h.check('the files of the list', h.eq(h.list_of(r[1]), v))


def single(h):
    I = h.I
    v = h.fresh('str', 'value')
    enc_ = h.fresh('str', 'encoding')
    found, text = lib.dict_get(I, models.fs(I), v)
    r = h.call(IO + 'to_file_content_if_is_file', v, encoding=enc_)
    h.check('the content of the file if it exists, else the value',
            h.eq(r, models.decoded(I, text, enc_) if found else v))
    h.check('nothing is written', I.ctx.ghost['writes'].concrete and not I.ctx.ghost['writes'].get())


def extractor_files(kind):
    """The files that an extractor selects for a glob or a list of globs."""
    def f(h):
        I = h.I
        ignore = h.fresh(('list', 'str'), 'ignore')
        value = h.fresh('str' if kind == 'glob' else ('list', 'str'), 'value')
        is_files = h.fresh('bool', 'is_files') if kind == 'glob' else True
        matched = lib.uf(I, 'glob.glob', [value], ('list', 'str')) if kind == 'glob' else value
        selected = h.fresh(('list', 'str'), 'selected')
        calls = []

        def files(I, v):
            h.check('the given input is examined', h.eq(v['value'], value))
            return (True, matched) if I.truth(lib.truth_term(I, is_files)) else (False, value)

        def filter_(I, v):
            calls.append(True)
            got = h.list_of(v['filepaths'])
            if kind == 'glob':
                h.check('the matched files are filtered', h.eq(got, matched))
            else:
                h.check('the files matched by every glob are filtered', h.eq(got, globs.total()[0]))
            h.check('without the ignored ones', h.eq(h.list_of(v['ignore_paths']), ignore))
            return selected
        if kind != 'glob':
            I.env['glob.valid'] = True
            each = h.fold('globs', value, [('each', ('list', ('list', 'str')))],
                          (empty(I, ('list', 'str')),), lambda I, st, x, i: (
                append(I, st[0], lib.uf(I, 'glob.glob', [x], ('list', 'str'))),))
            globs = h.fold('files', each.total()[0], [('all', ('list', 'str'))], (empty(I),),
                           lambda I, st, x, i: (extend(I, st[0], x),))
        I.contracts[IO + 'to_files_or_content'] = files
        I.contracts[IO + 'filter_paths'] = filter_
        tool = h.call(MD2PO, value, ignore=ignore)
        if h.truth(lib.truth_term(I, is_files)):
            h.check('the files are filtered once', len(calls) == 1)
            h.check('exactly the filtered files are selected', h.eq(tool.fields['filepaths'], selected))
            h.check('there is no content', 'content' not in tool.fields)
        else:
            h.check('no file is selected', 'filepaths' not in tool.fields and not calls)
            h.check('the content is the value', h.eq(tool.fields['content'], value))
    return Task(f'extractor, {kind}', f, functions=(MD2PO + '.__init__',))


def extractor_reads(h):
    """Every selected file is read and parsed once, in order."""
    I = h.I
    tool = new_tool(h, MD2PO, glob=True)
    paths = tool.fields['filepaths']
    d = models.fs(I)
    seen = empty(I)
    I.contracts[MD2PO + '._dump_link_references'] = lambda I, v: None
    contents = h.fold('contents', paths, [('all', ('list', 'str'))], (empty(I),), lambda I, st, x, i: (
        append(I, st[0], models.decoded(I, lib.dict_get(I, d, exists(I, x))[1], 'utf-8')),))

    def exists(I, x):
        I.ctx.assume(lib.contains(I, d, x))
        return x

    def script(ev):
        lib.list_append(I, seen, ev.content)
    I.contracts['mdpo.po.mark_not_found_entries_as_obsoletes'] = lambda I, v: None
    drive(h, tool, script, finish=True)
    h.check('exactly the contents of the files, in order', h.eq(seen, contents.total()[0]))


def content_input(h):
    """Content is parsed as it is."""
    I = h.I
    tool = new_tool(h, MD2PO, glob=False)
    seen = []
    I.contracts[MD2PO + '._dump_link_references'] = lambda I, v: None
    I.contracts['mdpo.po.mark_not_found_entries_as_obsoletes'] = lambda I, v: None
    content = tool.fields['content']
    drive(h, tool, lambda ev: seen.append(ev.content), finish=True)
    h.check('the content is parsed once', len(seen) == 1)
    h.check('as it is', h.eq(seen[0], content))


def translator_reads(h):
    I = h.I
    value = h.fresh('str', 'filepath_or_content')
    text = h.fresh('str', 'text')
    enc_ = h.fresh('str', 'encoding')
    tool = new_tool(h, PO2MD)

    def read(I, v):
        h.check('the given input is examined', h.eq(v['value'], value))
        h.check('with the given encoding', h.eq(v['encoding'], enc_))
        return text
    I.contracts[IO + 'to_file_content_if_is_file'] = read
    seen = []
    drive(h, tool, lambda ev: seen.append(ev.content), md_encoding=enc_, document=value)
    h.check('the text is parsed', len(seen) == 1 and h.eq(seen[0], text))


def html_reads(h):
    I = h.I
    value, text, enc_ = h.fresh('str', 'filepath_or_content'), h.fresh('str', 'text'), h.fresh('str', 'encoding')
    tool = new_tool(h, HTML)

    def read(I, v):
        h.check('the given input is examined', h.eq(v['value'], value))
        h.check('with the given encoding', h.eq(v['encoding'], enc_))
        return text
    I.contracts[IO + 'to_file_content_if_is_file'] = read
    seen = []
    html_parser(h, seen.append)
    I.contracts['mdpo.po.pofiles_to_unique_translations_dicts'] = lambda I, v: (
        I.ctx.fresh(('map', 'str', 'str'), 'translations'),
        I.ctx.fresh(('map', 'str', ('map', 'str', 'str')), 'translations_with_msgctxt'))
    h.method(tool, 'translate', value, html_encoding=enc_)
    h.check('the text is parsed', len(seen) == 1 and h.eq(seen[0], text))


TASKS = [filtered('list'), filtered('set'), Task('filter without ignored paths', default_ignore,
                                                 functions=(IO + 'filter_paths',)),
         Task('glob or content', text_input, functions=(IO + 'to_files_or_content',)),
         Task('list of files', list_input, functions=(IO + 'to_files_or_content',)),
         Task('single input', single, functions=(IO + 'to_file_content_if_is_file',)),
         extractor_files('glob'), extractor_files('list'),
         Task('extractor reads', extractor_reads, functions=(MD2PO + '.extract',)),
         Task('extractor content', content_input, functions=(MD2PO + '.extract',)),
         Task('translator reads', translator_reads, functions=(PO2MD + '.translate',)),
         Task('html translator reads', html_reads, functions=(HTML + '.translate',))]
TRUSTED = ['glob.glob, os.path.basename and os.path.dirname are functions of the path; the file system does not change'
           ' between two calls']
