"""P09: saved files hold the output and check mode reports every change."""
from contracts.common import *
from pyvc import models

SAVE = 'mdpo.io.save_file_checking_file_changed'
HTML = 'mdpo.mdpo2html.MdPo2HTML'


class Before:
    """The file system before a run."""

    def __init__(self, h):
        self.h, I = h, h.I
        self.d = models.fs(I)
        self.q = h.fresh('str', 'any_path')
        self.q_before = self.look(self.q)

    def look(self, p):
        """(exists, bytes) of a file, as terms."""
        return lookup(self.h.I, p)


def lookup(I, p):
    e = core.enc(I.ctx, models.fs(I), ('map', 'str', 'bytes'))
    o = z3.Select(e, core.enc(I.ctx, p, 'str'))
    _, _, _, val, _, is_some = core.opt_dt('bytes')
    return is_some(o), val(o)


def written(h, before, path, old, want, active, changed, result, label=''):
    """After saving: the file has the wanted bytes, the others are as before, and the change is reported."""
    I = h.I
    exists, content = lookup(I, path)
    h.check('the file exists', exists)
    h.check('the file holds exactly the produced content', content == want.e)
    e, c = lookup(I, before.q)
    same = z3.And(e == before.q_before[0], z3.Implies(e, c == before.q_before[1]))
    h.check('no other file is changed', z3.Implies(before.q.e != path.e, same))
    differs = z3.Or(z3.Not(old[0]), old[1] != want.e)
    w = I.ctx.ghost['writes'].get()
    if not isinstance(w, list):
        raise Unsupported('symbolic writes')
    h.check('a change is reported iff the file did not exist or was different',
            z3.Implies(active, h.term(result) == differs))
    h.check('nothing is reported without check mode', z3.Implies(z3.Not(active), z3.Not(h.term(result))))
    h.check('a file that already has the content is not written in check mode',
            z3.Implies(z3.And(active, z3.Not(differs)), z3.BoolVal(not w)))
    h.check('a different file is written', z3.Implies(z3.Or(differs, z3.Not(active)), z3.BoolVal(len(w) == 1)))


def save(kind):
    def f(h):
        I = h.I
        I.env['fs.undecodable'] = True
        path, text = h.fresh('str', 'path'), h.fresh('str', 'content')
        k = {}
        encoding = 'utf-8'
        if kind == 'given encoding':
            encoding = k['encoding'] = h.fresh('str', 'encoding')
            h.assume(z3.Length(encoding.e) > 0)
        elif kind == 'no encoding':
            encoding = k['encoding'] = None
        b = Before(h)
        old = b.look(path)
        r = h.call(SAVE, path, text, **k)
        written(h, b, path, old, models.encoded(I, text, encoding), z3.BoolVal(True), None, r)
    return Task(f'save ({kind})', f, functions=(SAVE,))


def reported(tool):
    """Truth of the change reported by a tool."""
    return tool.fields['_saved_files_changed']


class PO:
    """PO file of polib: its text depends on the changes made to it."""

    def __init__(self, h):
        self.h, I = h, h.I
        self.texts = {}
        self.version = 0
        self.encoding = h.fresh('str', 'po_encoding_of_file')
        h.assume(z3.Length(self.encoding.e) > 0)

        def text(I, o):
            if self.version not in self.texts:
                self.texts[self.version] = I.ctx.fresh('str', 'po_text')
            return self.texts[self.version]

        def po_save(I, o, fpath=None, repr_method='__unicode__', newline=None):
            fpath, newline = I.force(fpath), I.force(newline)
            if fpath is None or newline is not None or repr_method != '__unicode__':
                raise Unsupported('POFile.save')
            I.run.trusted.add('polib.POFile.save: writes its text with its encoding in the given file')
            fh = models.file_open(I, [fpath, 'w'], {'encoding': self.encoding})
            models.f_write(I, fh, text(I, o))

        def update(I, o, *a):
            self.touch()
        meta = VObj(I.ctx, NativeClass('metadata', {'update': update, '__setitem__': update}), {})
        c = NativeClass('POFile', {'__str__': text, '__unicode__': text, 'save': po_save,
                                   'save_as_mofile': lambda I, o, p: None,
                                   'append': lambda I, o, e: self.touch()})
        self.obj = VObj(I.ctx, c, {'encoding': self.encoding, 'metadata': meta, 'header': I.ctx.fresh('str', 'header')})
        I.env['polib.pofile'] = lambda I, a, k: self.obj
        I.contracts['mdpo.po.mark_not_found_entries_as_obsoletes'] = lambda I, v: self.touch()
        I.contracts['mdpo.po.remove_not_found_entries'] = lambda I, v: self.touch()

    def touch(self):
        self.version += 1

    def text(self):
        return self.obj.cls.methods['__str__'](self.h.I, self.obj)


FLAG = '_check_saved_files_changed'


def extractor(mode):
    def f(h):
        I = h.I
        check = h.fresh('bool', 'check')
        path = h.fresh('str', 'po_filepath')
        h.assume(z3.Length(path.e) > 0)
        po = PO(h)
        opts = dict(mark_not_found_as_obsolete=h.fresh('bool', 'mark'),
                    preserve_not_found=h.fresh('bool', 'preserve'))
        if mode == 'metadata':
            opts['metadata'] = h.fresh(('map', 'str', 'str'), 'metadata')
        tool = new_tool(h, MD2PO, **{FLAG: check}, **opts)
        I.contracts[MD2PO + '._dump_link_references'] = lambda I, v: po.touch()
        b = Before(h)
        old = b.look(path)
        wanted = True if mode != 'save unknown' else h.fresh('bool', 'save')
        r = drive(h, tool, lambda ev: None, finish=True, po_filepath=path, save=wanted)
        h.check('the PO file is returned', r is po.obj)
        if h.truth(wanted):
            t = po.text()
            written(h, b, path, old, models.encoded(I, t, po.encoding), check.e, None, reported(tool))
        else:
            unchanged(h, tool)
    return Task(f'extractor ({mode})', f, functions=(MD2PO + '.extract', MD2PO + '.__init__'))


def unchanged(h, tool):
    w = h.I.ctx.ghost['writes'].get()
    h.check('nothing is written', isinstance(w, list) and not w)
    h.check('no change is reported', z3.Not(h.term(reported(tool))))


def extractor_no_save(h):
    PO(h)
    tool = new_tool(h, MD2PO, **{FLAG: h.fresh('bool', 'check')})
    I = h.I
    I.contracts[MD2PO + '._dump_link_references'] = lambda I, v: None
    drive(h, tool, lambda ev: None, finish=True)
    unchanged(h, tool)


def translator(cls, how):
    """Translators: ``how``: save / nothing / default flag."""
    def f(h):
        I = h.I
        check = h.fresh('bool', 'check')
        k = {}
        if how != 'default mode':
            k[FLAG] = check
            if cls == HTML:
                # the option of the command line
                k[FLAG] = I.truth(check) or None
        active = check.e if how != 'default mode' else z3.BoolVal(False)
        tool = new_tool(h, cls, **k)
        path = h.fresh('str', 'save')
        encoding = h.fresh('str', 'encoding')
        h.assume(z3.And(z3.Length(path.e) > 0, z3.Length(encoding.e) > 0))
        kw = {('html_encoding' if cls == HTML else 'md_encoding'): encoding}
        if how != 'nothing saved':
            kw['save'] = path
        b = Before(h)
        old = b.look(path)
        I.contracts['mdpo.io.to_file_content_if_is_file'] = lambda I, v: I.ctx.fresh('str', 'content')
        if cls == HTML:
            html_parser(h, lambda t: I.setattr(tool, 'output', I.ctx.fresh('str', 'output')))
            I.contracts['mdpo.po.pofiles_to_unique_translations_dicts'] = lambda I, v: (
                I.ctx.fresh(('map', 'str', 'str'), 'translations'),
                I.ctx.fresh(('map', 'str', ('map', 'str', 'str')), 'translations_with_msgctxt'))
            out = h.method(tool, 'translate', h.fresh('str', 'document'), **kw)
        else:
            def script(ev):
                lib.list_append(I, tool.fields['outputlines'], I.ctx.fresh('str', 'line'))
                lib.list_append(I, tool.fields['outputlines'], I.ctx.fresh('str', 'line'))
            out = drive(h, tool, script, finish=True, **kw)
        if how == 'nothing saved':
            unchanged(h, tool)
        else:
            written(h, b, path, old, models.encoded(I, out, encoding), active, None, reported(tool))
    name = 'html translator' if cls == HTML else 'translator'
    return Task(f'{name} ({how})', f, functions=(cls + '.translate', cls + '.__init__'))


def cli(tool, cls, run, extract):
    """The command line gives the option to the tool and exits with 2 iff it reports a change."""
    mod = f'mdpo.{tool}.__main__'

    def f(h):
        I = h.I
        types = {'quiet': 'bool', 'check_saved_files_changed': 'bool', 'no_obsolete': 'bool', 'no_fuzzy': 'bool',
                 'no_empty_msgstr': 'bool', 'po_filepath': 'str',
                 'save': 'bool' if tool == 'md2po' else ('opt', 'str')}
        opts = unknown_instance(I, types, 'options')
        g = lambda n: lib.getattr_(I, opts, n)
        I.contracts[mod + '.parse_options'] = lambda I, v: opts
        changed = h.fresh('bool', 'changed')
        check = g('check_saved_files_changed')
        for n in ('no_obsolete', 'no_fuzzy', 'no_empty_msgstr'):
            h.assume(z3.Not(h.term(g(n))))
        ran = []
        enc_name = 'html_encoding' if tool == 'mdpo2html' else 'md_encoding'

        def method(I, o, *a, **k):
            ran.append(True)
            h.check('the file to save is the one of the options', h.eq(k.get('save'), g('save')))
            if tool == 'md2po':
                h.check('the PO file is the one of the options', h.eq(k.get('po_filepath'), g('po_filepath')))
                return VObj(I.ctx, NativeClass('POFile', {'__unicode__': lambda I, o: I.ctx.fresh('str', 'po')}), {})
            h.check('the encoding is the one of the options', same(h, k.get(enc_name), g(enc_name)))
            return I.ctx.fresh('str', 'output')

        def make(I, a, k):
            h.check('the check option is given to the tool', h.eq(k.get(FLAG), check))
            return VObj(I.ctx, NativeClass('Tool', {extract: method}),
                        {'_saved_files_changed': changed, 'pofiles': VList(I.ctx, [])})
        I.contracts[cls] = make
        r = h.call(mod + '.run')
        h.check('the tool runs once', len(ran) == 1)
        h.check('exit code 2 iff a change is reported in check mode, else 0', h.eq(
            lib.getitem(I, r, 1), SV('int', z3.If(z3.And(h.term(check), changed.e), z3.IntVal(2), z3.IntVal(0)))))
    return Task(f'{tool} command line', f, functions=(mod + '.run',))


def same(h, a, b):
    if isinstance(a, SV) and isinstance(b, SV) and isinstance(a.t, tuple):
        return a.t == b.t and a.e == b.e
    return h.eq(a, b)


def combined_cli(h):
    mod = 'mdpo.md2po2md.__main__'
    I = h.I
    opts = unknown_instance(I, {'check_saved_files_changed': 'bool'}, 'options')
    I.contracts[mod + '.parse_options'] = lambda I, v: opts
    changed = h.fresh(('opt', 'bool'), 'changed')
    check = lib.getattr_(I, opts, 'check_saved_files_changed')

    def c(I, v):
        h.check('the check option is given to the tool', h.eq(v[FLAG], check))
        return (changed, VList(I.ctx, []), VList(I.ctx, []), VList(I.ctx, []))
    I.contracts['mdpo.md2po2md.markdown_to_pofile_to_markdown'] = c
    r = h.call(mod + '.run')
    h.check('exit code 2 iff a change is reported in check mode, else 0', h.eq(
        r, SV('int', z3.If(z3.And(h.term(check), h.term(changed)), z3.IntVal(2), z3.IntVal(0)))))


TASKS = [save(k) for k in ('default encoding', 'given encoding', 'no encoding')] + \
    [extractor(m) for m in ('save', 'metadata', 'save unknown')] + \
    [Task('extractor without saving', extractor_no_save, functions=(MD2PO + '.extract',))] + \
    [translator(c, m) for c in (PO2MD, HTML) for m in ('check mode', 'default mode', 'nothing saved')] + \
    [cli('md2po', MD2PO, 'run', 'extract'), cli('po2md', PO2MD, 'run', 'translate'),
     cli('mdpo2html', HTML, 'run', 'translate'),
     Task('md2po2md command line', combined_cli, functions=('mdpo.md2po2md.__main__.run',))]
TRUSTED = ['the contents can be encoded with the given encodings; os.linesep is a line feed',
           'polib: str(pofile) and POFile.save produce the same text, written with the encoding of the PO file']
