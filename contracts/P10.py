"""P10: PO quality checks report exactly the offending lines and exit codes."""
from contracts.common import *

NAMES = {'obsolete': ('mdpo.po.parse_obsoletes_from_content_lines',
                      'mdpo.po.check_obsolete_entries_in_filepaths'),
         'fuzzy': ('mdpo.po.parse_fuzzy_from_content_lines', 'mdpo.po.check_fuzzy_entries_in_filepaths'),
         'empty': ('mdpo.po.parse_empty_msgstr_from_content_lines',
                   'mdpo.po.check_empty_msgstrs_in_filepaths')}


def location(I, pre, i, plus=1):
    return cat(I, pre, lib.int_to_str(I, SV('int', z3.simplify(i.e + plus))))


def spec(h, kind, lines, pre):
    """Locations that the property requires for the lines of one file, as a fold."""
    I = h.I
    n = lib.iterate(I, lines).n
    e = lib.seq_term_of(I, lines)

    def line(i):
        return SV('bytes', lib.seq_nth(I, e, i))

    def obsolete(I, st, x, i):
        out, inside = st
        if I.truth(SV('bool', prefix(x, '#~ '))):
            return (out if I.truth(inside) else append(I, out, location(I, pre, i))), True
        return out, False

    def fuzzy(I, st, x, i):
        if I.truth(SV('bool', z3.And(prefix(x, '#,'), z3.Contains(x.e, S('fuzzy'))))):
            return append(I, st[0], location(I, pre, i)),
        return st

    def empty_(I, st, x, i):
        first = z3.Or(prefix(x, 'msgstr ""'), prefix(x, '#~ msgstr ""'))
        if not I.truth(SV('bool', first)):
            return st
        if I.truth(SV('bool', i.e > 0)) and I.truth(SV('bool', prefix(line(i.e - 1), 'msgid ""'))):
            return st
        if I.truth(SV('bool', i.e + 1 == n)) or \
                not I.truth(lib.call_method(I, line(i.e + 1), 'strip', [], {})):
            return append(I, st[0], location(I, pre, i)),
        return st
    step = {'obsolete': obsolete, 'fuzzy': fuzzy, 'empty': empty_}[kind]
    comps = [('out', ('list', 'str'))] + ([('inside', 'bool')] if kind == 'obsolete' else [])
    init = (empty(I), False) if kind == 'obsolete' else (empty(I),)
    return h.fold(kind, lines, comps, init, step, caps=(pre,)).total()[0]


def scan(kind):
    def f(h):
        lines = h.fresh(('list', 'bytes'), 'lines')
        pre = h.fresh('str', 'prefix')
        want = spec(h, kind, lines, pre)
        got = h.list_of(h.call(NAMES[kind][0], lines, location_prefix=pre))
        h.check_eq(f'the {kind} scan reports exactly the offending lines in order', got, want)
    return Task(f'{kind} lines of a file', f, functions=(NAMES[kind][0],))


def files(kind):
    def f(h):
        I = h.I
        from pyvc import models
        names = h.fresh(('list', 'str'), 'filenames')

        def step(I, st, name, i):
            # the file exists (precondition of the checks)
            fs = models.fs(I)
            I.ctx.assume(lib.contains(I, fs, name))
            found, content = lib.dict_get(I, fs, name)
            lines = models.binary_lines(I, content)
            return extend(I, st[0], spec(h, kind, lines, cat(I, name, ':'))),
        fold = h.fold('files', names, [('out', ('list', 'str'))], (empty(I),), step)
        got = h.list_of(h.call(NAMES[kind][1], names))
        h.check_eq(f'the {kind} check reports the locations of each file in order', got, fold.total()[0])
    return Task(f'{kind} entries of several files', f, functions=NAMES[kind])


# ------------------------------------------------------------------ command lines

OPTS = {'quiet': 'bool', 'check_saved_files_changed': 'bool', 'no_obsolete': 'bool', 'no_fuzzy': 'bool',
        'no_empty_msgstr': 'bool', 'po_filepath': 'str', 'save': ('opt', 'str')}


def locations_text(h, lst, many, one):
    """Text written for a non empty list of locations."""
    I = h.I

    def step(I, st, x, i):
        return cat(I, st[0], x, '\n'), cat(I, st[1], f'Found {one} at ', x, '\n')
    f = h.fold('text ' + one, lst, [('each', 'str'), ('short', 'str')], ('', ''), step)
    n = SV('int', z3.Length(lst.get().e))

    def total():
        each, short = f.total()
        if I.truth(SV('bool', n.e > 2)):
            return cat(I, 'Found ', lib.int_to_str(I, n), f' {many}:\n', each)
        return short
    return total


def cli(tool, setup):
    mod = f'mdpo.{tool}.__main__'

    def f(h):
        I = h.I
        from pyvc import models
        opts = unknown_instance(I, dict(OPTS, save=('opt', 'str') if tool != 'md2po' else 'bool'), 'options')
        I.contracts[mod + '.parse_options'] = lambda I, v: opts
        changed = h.fresh('bool', 'files_changed')
        lists = {}
        paths, extra = setup(h, opts, changed)
        asked = {}

        def contract(kind):
            def c(I, v):
                h.check(f'the {kind} check looks at the PO files of the run',
                        I.eq(lib.to_list(I, v['filenames']), lib.to_list(I, paths())))
                asked[kind] = True
                return lists[kind]
            return c
        flags = {'obsolete': 'no_obsolete', 'fuzzy': 'no_fuzzy', 'empty': 'no_empty_msgstr'}
        for kind in NAMES:
            lists[kind] = h.fresh(('list', 'str'), kind)
            I.contracts[NAMES[kind][1]] = contract(kind)
        extra(lists)
        words = {'obsolete': ('obsolete entries', 'obsolete entry'),
                 'fuzzy': ('fuzzy entries', 'fuzzy entry'), 'empty': ('empty msgstrs', 'empty msgstr')}
        text, code = '', 0
        want = {}
        for kind in NAMES:
            want[kind] = locations_text(h, lists[kind], *words[kind])
        I.module('mdpo.' + tool + '.__main__')
        r = h.call(mod + '.run')
        code_got = r if tool == 'md2po2md' else lib.getitem(I, r, 1)
        err = models.stream(I, 'stderr').fields['buf']
        if I.truth(lib.getattr_(I, opts, 'check_saved_files_changed')) and I.truth(changed):
            code = 2
        for j, kind in enumerate(NAMES):
            on = True if tool == 'md2po2md' else I.truth(lib.getattr_(I, opts, flags[kind]))
            if on and I.truth(SV('bool', z3.Length(lists[kind].get().e) > 0)):
                code = 3 + j
                text = cat(I, text, want[kind]())
        h.check_eq('exit code', code_got, code)
        h.check_eq('text written to the error output', err, text)
    return Task(f'{tool} command line', f, functions=(mod + '.run',))


def md2po(h, opts, changed):
    I = h.I
    po = VObj(I.ctx, NativeClass('POFile', {'__unicode__': lambda I, o: I.ctx.fresh('str', 'po')}), {})
    obj = VObj(I.ctx, NativeClass('Md2Po', {'extract': lambda I, o, **k: po}), {'_saved_files_changed': changed})
    I.contracts['mdpo.md2po.Md2Po'] = lambda I, a, k: obj
    return (lambda: VList(I.ctx, [lib.getattr_(I, opts, 'po_filepath')])), lambda lists: None


def translator(cls):
    def f(h, opts, changed):
        I = h.I
        objs = h.fresh(('list', ('ref', 'POFile')), 'pofiles')
        obj = VObj(I.ctx, NativeClass('T', {'translate': lambda I, o, *a, **k: I.ctx.fresh('str', 'output')}),
                   {'_saved_files_changed': changed, 'pofiles': objs})
        I.contracts[cls] = lambda I, a, k: obj

        def step(I, st, x, i):
            return append(I, st[0], I.ctx.heap_read(x, 'fpath')),
        fold = h.fold('paths', objs, [('out', ('list', 'str'))], (empty(I),), step)
        return (lambda: fold.total()[0]), lambda lists: None
    return f


def md2po2md(h, opts, changed):
    I = h.I

    def extra(lists):
        def c(I, v):
            return (changed, lists['obsolete'], lists['fuzzy'], lists['empty'])
        I.contracts['mdpo.md2po2md.markdown_to_pofile_to_markdown'] = c
    return (lambda: VList(I.ctx, [])), extra


TASKS = [scan(k) for k in NAMES] + [files(k) for k in NAMES] + [
    cli('md2po', md2po), cli('po2md', translator('mdpo.po2md.Po2Md')),
    cli('mdpo2html', translator('mdpo.mdpo2html.MdPo2HTML')), cli('md2po2md', md2po2md)]
TRUSTED = ['reading a PO file in binary mode gives its lines; the given PO files exist',
           'argparse fills the options (parse_options is left outside, its results are unknown values)']
