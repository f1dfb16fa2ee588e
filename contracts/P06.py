"""P06: messages are translated by exact text and context, else left untouched."""
from contracts import P03
from contracts.entries import *
from contracts.messages import MD2PO, PO2MD, any_state, each_callback, leaves

HTML = 'mdpo.mdpo2html.MdPo2HTML'
DICTS = 'mdpo.po.pofiles_to_unique_translations_dicts'
FILES = 'mdpo.po.paths_or_globs_to_unique_pofiles'
TR = PO2MD + '._translate_msgid'
T1, T2 = ('map', 'str', 'str'), ('map', 'str', ('map', 'str', 'str'))


def entry_map(h):
    """Mappings of one more entry: its translation replaces that of earlier entries with its text and context."""
    I = h.I
    hp = Heap(h)
    S1, S2 = sort_of(T1), sort_of(T2)
    some1, some2 = core.opt_dt('str')[2], core.opt_dt(T1)[2]
    none1 = core.opt_dt('str')[1]

    def step(I, st, x, i):
        t, c = core.enc(I.ctx, st[0], T1), core.enc(I.ctx, st[1], T2)
        mid, mstr, ctx = hp.term(x, 'msgid'), hp.term(x, 'msgstr'), text_of(h, hp.get(x, 'msgctxt'))
        if I.truth(ctx == z3.StringVal('')):
            t = z3.Store(t, mid, some1(mstr))
        else:
            there = z3.Select(c, ctx)
            inner = core.opt_dt(T1)[3](there) if I.truth(core.opt_dt(T1)[5](there)) else z3.K(z3.StringSort(), none1)
            c = z3.Store(c, ctx, some2(z3.Store(inner, mid, some1(mstr))))
        return core.dec(I.ctx, t, T1), core.dec(I.ctx, c, T2)
    return step


def mappings(h):
    """pofiles_to_unique_translations_dicts: by text, and by context and text, the last entry of the files wins."""
    I = h.I
    files = h.fresh(('list', ('list', ENTRY)), 'pofiles')
    hp = Heap(h)
    one = entry_map(h)

    def per_file(I, st, x, i):
        f = h.fold('entries', x, [('texts', T1), ('contexts', T2)], st, one,
                   caps=[SV('raw', 0)] if False else [st[0], st[1]])
        return f.total()
    none1, none2 = core.opt_dt('str')[1], core.opt_dt(T1)[1]
    init = (core.dec(h.ctx, z3.K(z3.StringSort(), none1), T1), core.dec(h.ctx, z3.K(z3.StringSort(), none2), T2))
    f = h.fold('files', files, [('texts', T1), ('contexts', T2)], init, per_file)
    r = h.call(DICTS, files)
    want = f.total()
    h.check('translations by text', h.eq(r[0], want[0]))
    h.check('translations by context and text', h.eq(r[1], want[1]))
    now = Heap(h)
    h.check('no entry is changed', z3.And([now.arrays[f] == hp.arrays[f] for f in hp.arrays]))


def look(h, texts, contexts, msgid, ctx):
    """Specification of the lookup: (there is an entry, its translation)."""
    t, c = core.enc(h.ctx, texts, T1), core.enc(h.ctx, contexts, T2)
    k, mid = text_of(h, ctx), core.enc(h.ctx, msgid, 'str')
    o2 = core.opt_dt(T1)
    some, val = core.opt_dt('str')[5], core.opt_dt('str')[3]
    a, b = z3.Select(t, mid), z3.Select(o2[3](z3.Select(c, k)), mid)
    e = k == z3.StringVal('')
    found = z3.If(e, some(a), z3.And(o2[5](z3.Select(c, k)), some(b)))
    return found, z3.If(e, val(a), val(b))


def translation(h, texts, contexts, msgid, ctx):
    found, v = look(h, texts, contexts, msgid, ctx)
    return z3.If(z3.And(found, v != z3.StringVal('')), v, core.enc(h.ctx, msgid, 'str'))


def translated(h):
    """_translate_msgid, from any state."""
    I = h.I
    leaves(h)
    tool = any_state(h, PO2MD, lists=('translated_entries',))
    texts, contexts = h.fresh(T1, 'translations'), h.fresh(T2, 'translations_with_msgctxt')
    tool.fields['translations'], tool.fields['translations_with_msgctxt'] = texts, contexts
    t0, c0 = texts.get(), contexts.get()
    msgid, ctx = h.fresh('str', 'msgid'), h.fresh(('opt', 'str'), 'msgctxt')
    want = translation(h, texts, contexts, msgid, ctx)
    r = h.method(tool, '_translate_msgid', msgid, ctx, h.fresh(('opt', 'str'), 'tcomment'))
    h.check('the translation of exactly the text and context, else the text', core.enc(h.ctx, I.force(r), 'str') == want)
    h.check('the translations are not changed', z3.And(
        core.enc(h.ctx, tool.fields['translations'], T1) == t0, core.enc(h.ctx, tool.fields['translations_with_msgctxt'], T2) == c0))


def written(h):
    """Po2Md._save_current_msgid: the translation of the current message in its context is what is written."""
    I = h.I
    leaves(h)
    tool = any_state(h, PO2MD)
    f = dict(tool.fields)
    tr = h.fresh('str', 'translation')
    calls = []

    def translate(I, v):
        calls.append(v)
        h.check('the text looked up', h.eq(v['msgid'], f['current_msgid']))
        h.check('the context looked up', h.eq(v['msgctxt'], f['current_msgctxt']))
        return tr
    I.contracts[TR] = translate
    wrapped = []

    def wrap(I, a, k):
        wrapped.append(I.force(a[0]))
        return lib.uf(I, 'ulb_wrap_paragraph', list(a), 'str')
    I.env['ulb_wrap_paragraph'] = wrap
    try:
        h.method(tool, '_save_current_msgid')
    except core.PyRaise:
        raise core.Infeasible() from None      # states that no document leads to (P08)
    h.check('looked up once at most', len(calls) <= 1)
    for w in wrapped:
        h.check('the text that is written', h.eq(w, tr if calls else f['current_msgid']))
    if not calls:
        return
    if wrapped:
        return
    # code blocks and tables: no wrapping
    line = tool.fields['current_line']
    if h.truth(f['_inside_indented_codeblock']):
        return
    some = z3.Not(h.eq(lib.call_method(I, tr, 'rstrip', ['\n'], {}), ''))
    h.check('the translation is written as it is', z3.Or(z3.And(some, h.eq(line, cat(I, f['current_line'], tr))),
                                                       z3.And(z3.Not(some), h.eq(line, f['current_line']))))


def untouched(h, tool, cls, name, args, run, log):
    """The steps of the translator leave the translations."""
    t, c = tool.fields['translations'], tool.fields['translations_with_msgctxt']
    p = tool.fields['pofiles']
    t0 = t.get() if isinstance(t, VDict) else t
    c0 = c.get() if isinstance(c, VDict) else c
    run()
    h.check('the translations are not changed', tool.fields['translations'] is t and tool.fields['translations_with_msgctxt'] is c)
    h.check('nor their contents', z3.BoolVal((t.get() if isinstance(t, VDict) else t) is t0 and (
        c.get() if isinstance(c, VDict) else c) is c0))
    h.check('nor the PO files', tool.fields['pofiles'] is p)


def html_element(h):
    """MdPo2HTML._process_replacer: the text of the element is replaced by its translation, else rendered itself."""
    I = h.I
    tool = P03.html_tool(h)
    tool.fields['replacer'] = P03.Queue(h).obj
    texts, contexts = h.fresh(T1, 'translations'), h.fresh(T2, 'translations_with_msgctxt')
    before = dict(tool.fields)
    keys, absent = [], []

    def get_text(I, o, k, d=None):
        keys.append((k, None))
        found, v = look(h, texts, contexts, k, None)
        return SV('str', v) if I.truth(found) else d

    def get_context(I, o, k, d=None):
        there = core.opt_dt(T1)[5](z3.Select(contexts.get(), core.enc(h.ctx, I.force(k), 'str')))
        if not I.truth(there):
            absent.append(k)
            return d
        inner = NativeClass('dict', {'get': lambda I, o, m, d=None: text_in(I, k, m, d)})
        return VObj(I.ctx, inner, {})

    def text_in(I, ctx, k, d):
        keys.append((k, ctx))
        h.check('a context that is not empty', z3.Not(h.eq(ctx, '')))
        found, v = look(h, texts, contexts, k, ctx)
        return SV('str', v) if I.truth(found) else d
    tool.fields['translations'] = VObj(I.ctx, NativeClass('dict', {'get': get_text}), {})
    tool.fields['translations_with_msgctxt'] = VObj(I.ctx, NativeClass('dict', {'get': get_context}), {})
    I.contracts[HTML + '._merge_adyacent_tags'] = lambda I, v: I.ctx.fresh('str', 'html')
    I.contracts['mdpo.mdpo2html._html_attrs_to_str'] = lambda I, v: I.ctx.fresh('str', 'attributes')
    rendered = []

    def parse(I, o, text):
        rendered.append(text)
        return I.ctx.fresh('str', 'html')
    tool.fields['html_renderer'] = VObj(I.ctx, NativeClass('HTMLRenderer', {'parse': parse}), {})
    h.method(tool, '_process_replacer')
    h.check('one text is rendered', len(rendered) == 1)
    h.check('one lookup at most', len(keys) <= 1)
    c = before['current_msgctxt']
    for k in absent:
        h.check('the context looked for', text_of(h, k) == text_of(h, c))
    for k, ctx in keys:
        h.check('the context looked up', text_of(h, ctx) == text_of(h, c))
        h.check('the translation of exactly the text and context, else the text',
                core.enc(h.ctx, I.force(rendered[0]), 'str') == translation(h, texts, contexts, k, c))


def read_files(kind):
    """paths_or_globs_to_unique_pofiles: every matched path that is not ignored, once, in the order of the matches."""
    def f(h):
        I = h.I
        I.env['glob.valid'] = True
        globs = h.fresh('str' if kind == 'glob' else ('list', 'str'), 'globs')
        ignore, enc_ = h.fresh(('list', 'str'), 'ignore'), h.fresh(('opt', 'str'), 'po_encoding')
        P, FL = ('list', 'str'), ('list', ('ref', 'POFile'))

        def selected(x):
            return lib.uf(I, 'filter_paths', [lib.uf(I, 'glob.glob', [x], P), ignore], P)

        def load(path, encoding):
            return lib.uf(I, 'polib.pofile', [path, encoding], ('ref', 'POFile'))

        def one(I, st, x, i):
            if I.truth(lib.contains(I, st[0], x)):
                return st
            return append(I, st[0], x), append(I, st[1], load(x, enc_)), append(I, st[2], x)

        def per_glob(I, st, x, i):
            fo = h.fold('paths', selected(x), [('paths', P), ('files', FL), ('read', P)], st, one, caps=list(st) + [enc_])
            return fo.total()
        log = I.reg(VList(h.ctx, [], T='str'))
        reads = VObj(h.ctx, NativeClass('log'), {'paths': I.reg(VList(h.ctx, []))})

        def pofile(I, a, k):
            path = I.force(a[0] if a else k.get('pofile'))
            lib.list_append(I, reads.fields['paths'], path)
            return load(path, k.get('encoding'))
        I.env['polib.pofile'] = pofile

        def filter_(I, v):
            h.check('the ignored paths are those given', h.eq(h.list_of(v['ignore_paths']), ignore))
            return lib.uf(I, 'filter_paths', [h.list_of(v['filepaths']), ignore], P)
        I.contracts['mdpo.io.filter_paths'] = filter_
        empty3 = (empty(I), empty(I, ('ref', 'POFile')), empty(I))
        if kind == 'glob':
            want = per_glob(I, empty3, globs, 0)
        else:
            want = h.fold('globs', globs, [('paths', P), ('files', FL), ('read', P)], empty3, per_glob,
                          caps=[enc_, ignore]).total()
        r = h.call(FILES, globs, ignore, po_encoding=enc_)
        h.check('the PO files, in order', h.eq(h.list_of(r), want[1]))
        h.check('each one is read once, in order', h.eq(reads.fields['paths'], want[2]))
        h.check('nothing is written', I.ctx.ghost['writes'].concrete and not I.ctx.ghost['writes'].get())
    return Task(f'PO files ({kind})', f, functions=(FILES,))


def used(cls):
    """The tools read the given PO files when they are made and translate with the translations of these."""
    def f(h):
        I = h.I
        stub_inputs(h)
        globs, ignore = h.fresh(('list', 'str'), 'pofiles'), h.fresh(('list', 'str'), 'ignore')
        enc_, files = h.fresh(('opt', 'str'), 'po_encoding'), h.fresh(('list', ('ref', 'POFile')), 'files')
        calls = []

        def read(I, v):
            calls.append('read')
            h.check('the given PO files', h.eq(v['pofiles_globs'], globs))
            h.check('the given ignored paths', h.eq(h.list_of(v['ignore']), ignore))
            h.check('the given encoding', h.eq(v['po_encoding'], enc_))
            return files
        I.contracts[FILES] = read
        fed = []

        def feed(text):
            fed.append(text)
            same(tool)
        if cls == HTML:
            html_parser(h, feed)
        tool = h.call(cls, globs, ignore=ignore, po_encoding=enc_)
        h.check('the PO files are read once', calls == ['read'])
        h.check('the PO files are kept', h.eq(tool.fields['pofiles'], files))
        texts, contexts = h.fresh(T1, 'translations'), h.fresh(T2, 'translations_with_msgctxt')

        def dicts(I, v):
            calls.append('dicts')
            h.check('the translations of the PO files', h.eq(v['pofiles'], files))
            return texts, contexts
        I.contracts[DICTS] = dicts

        def same(tool):
            h.check('the translations are those of the PO files', calls == ['read', 'dicts']
                    and tool.fields['translations'] is texts and tool.fields['translations_with_msgctxt'] is contexts)
        if cls == HTML:
            h.method(tool, 'translate', h.fresh('str', 'document'))
            h.check('the document is parsed once', len(fed) == 1)
        else:
            I.contracts[PO2MD + '._append_link_references'] = lambda I, v: None
            drive(h, tool, lambda ev: (fed.append(1), same(tool)))
            h.check('the document is parsed once', len(fed) == 1)
    return Task(f'translations used ({cls.split(".")[1]})', f, functions=(cls + '.__init__', cls + '.translate'))


TASKS = [
    Task('translations of PO files', mappings, functions=(DICTS,)), Task('lookup', translated, functions=(TR,)),
    Task('current message', written, functions=(PO2MD + '._save_current_msgid',)),
    Task('mdpo2html element', html_element, functions=(HTML + '._process_replacer',)),
    read_files('glob'), read_files('list'), used(PO2MD), used(HTML)] + each_callback(untouched, classes=(PO2MD,))
TRUSTED = ['polib.pofile reads the PO file at a path', 'md_ulb_pwrap: function of the text and the widths']
