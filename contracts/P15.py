"""P15: location references number the top level blocks of each file."""
from contracts.messages import *

NUMBER, KIND, PATH = '_current_top_level_block_number', '_current_top_level_block_type', '_current_markdown_filepath'
NAMES = {'QUOTE': 'quote', 'UL': 'unordered list', 'OL': 'ordered list', 'H': 'header', 'CODE': 'code', 'HTML': 'html',
         'P': 'paragraph', 'TABLE': 'table'}


def reference(h):
    """_save_msgid from any state."""
    I = h.I
    tool = any_state(h, MD2PO)
    kept = []
    I.contracts['mdpo.po.find_entry_in_entries'] = lambda I, v: I.ctx.fresh(('opt', ('ref', 'POEntry')), 'equal')
    tool.fields['pofile'] = VObj(I.ctx, NativeClass('POFile', {
        'append': lambda I, o, e: kept.append(e), '__contains__': lambda I, o, e: I.ctx.fresh('bool', 'there').e}), {})
    kind = choose(h, 'kind', sorted(NAMES))
    number = h.fresh('int', 'number')
    h.assume(number.e >= 0)
    path = h.fresh(('opt', 'str'), 'path')
    location = h.fresh('bool', 'location')
    tool.fields[NUMBER], tool.fields[PATH], tool.fields['location'] = number, path, location
    tool.fields[KIND] = getattr(md4c(h).BlockType, kind).value
    a = dict(msgid=h.fresh('str', 'msgid'), msgstr=h.fresh('str', 'msgstr'), tcomment=h.fresh(('opt', 'str'), 'tcomment'),
             msgctxt=h.fresh(('opt', 'str'), 'msgctxt'), fuzzy=h.fresh('bool', 'fuzzy'))
    h.method(tool, '_save_msgid', **a)
    found = tool.fields['found_entries'].get()
    p = I.force(path)
    some = p is not None and h.truth(z3.Not(h.eq(p, ''))) and h.truth(location)
    for e in found + kept:
        occ = I.force(entry_field(h, e, 'occurrences'))
        want = VList(I.ctx, [(p, cat(I, 'block ', lib.to_str(I, number), f' ({NAMES[kind]})'))] if some else [],
                     T=('tuple', 'str', 'str'))
        h.check('one reference with the path, the number and the kind' if some else 'no references', h.eq(occ, want))
    h.check('the entry is the extracted one', len(found) <= 1 and all(k is found[0] for k in kept))


def constructed(h):
    I = h.I
    location = h.fresh('bool', 'location')
    tool = new_tool(h, MD2PO, location=location)
    h.check('locations are enabled as given', h.eq(tool.fields['location'], location))
    h.check('no file yet', h.eq(tool.fields[PATH], None))
    for k in ('_quoteblocks_deep', '_uls_deep', '_ols_deep'):
        h.check(f'no open blocks ({k})', h.eq(tool.fields[k], 0))
    h.check('no open heading', h.eq(tool.fields['_inside_hblock'], False))
    h.check('by default locations are enabled', h.eq(new_tool(h, MD2PO).fields['location'], True))


def files(h):
    """Each file starts at the first block, with its path; contents have no path."""
    I = h.I
    leaves(h)
    glob = h.truth(h.fresh('bool', 'files'))
    tool = new_tool(h, MD2PO, glob=glob)
    for n in 'remove_not_found_entries', 'mark_not_found_entries_as_obsoletes':
        I.contracts['mdpo.po.' + n] = lambda I, v: None
    seen = []

    def dump(I, v):
        h.check('the link references of a file have its path', h.eq(tool.fields[PATH], seen[-1] if glob else None))
        I.setattr(tool, NUMBER, I.ctx.fresh('int', 'number'))
    I.contracts[MD2PO + '._dump_link_references'] = dump

    def script(ev):
        h.check('the first block of a file is the block 1', h.eq(tool.fields[NUMBER], 0))
        if not glob:
            h.check('a content has no path', h.eq(tool.fields[PATH], None))
            return
        path = tool.fields[PATH]
        seen.append(path)
        fs = I.ctx.ghost['fs']
        h.check('the path is the one of the file', h.eq(ev.content, content_of(h, path)))
        for n in (NUMBER, KIND):
            I.setattr(tool, n, h.fresh('int', n))
    try:
        drive(h, tool, script, finish=True, md_encoding='utf-8')
    except core.PyRaise:
        raise core.Infeasible() from None      # files that cannot be read


def content_of(h, path):
    from pyvc import models
    I = h.I
    has, data = lib.dict_get(I, I.ctx.ghost['fs'], path)
    return models.decoded(I, data, 'utf-8')


def step(h, tool, cls, name, args, run, log):
    """Blocks are counted as top level ones by the open blocks around them."""
    I = h.I
    f = tool.fields
    before = {k: f[k] for k in (NUMBER, KIND, PATH, 'location', '_quoteblocks_deep', '_uls_deep', '_ols_deep', '_inside_hblock')}
    quotes, uls, ols = (before[k].e for k in ('_quoteblocks_deep', '_uls_deep', '_ols_deep'))
    lists = z3.simplify(uls + ols)
    heading = h.enc(before['_inside_hblock'], 'bool')
    b = args[0].name if name.endswith('block') else None
    if name == 'leave_block' and b in ('QUOTE', 'UL', 'OL'):
        # blocks are well nested
        h.assume({'QUOTE': quotes, 'UL': uls, 'OL': ols}[b] > 0)
    run()
    d = 1 if name == 'enter_block' else -1
    h.check('open quotes', h.eq(f['_quoteblocks_deep'], SV('int', quotes + (d if b == 'QUOTE' else 0))))
    h.check('open unordered lists', h.eq(f['_uls_deep'], SV('int', uls + (d if b == 'UL' else 0))))
    h.check('open ordered lists', h.eq(f['_ols_deep'], SV('int', ols + (d if b == 'OL' else 0))))
    h.check('open heading', h.eq(f['_inside_hblock'], (d == 1) if b == 'H' else before['_inside_hblock']))
    top = z3.BoolVal(False)
    if name == 'enter_block' and b in NAMES:
        top = quotes == 0
        if b != 'QUOTE':
            top = z3.And(top, lists == 0)
        if b == 'P':
            top = z3.And(top, z3.Not(heading))
    if h.truth(top):
        h.check('a top level block has the next number', h.eq(f[NUMBER], SV('int', before[NUMBER].e + 1)))
        h.check('the kind is the one of the block', h.eq(f[KIND], getattr(md4c(h).BlockType, b).value))
    else:
        h.check('only top level blocks are counted', h.eq(f[NUMBER], before[NUMBER]))
        h.check('the kind is the one of the last top level block', h.eq(f[KIND], before[KIND]))
    h.check('the file is the same', h.eq(f[PATH], before[PATH]))
    h.check('locations are enabled as before', h.eq(f['location'], before['location']))
    for x in log.flushed:
        if x['some']:
            h.check('a message before a block is not located in it', x['at'][0] is before[NUMBER] or
                    h.eq(x['at'][0], before[NUMBER]))


def with_place(check):
    """The contract of _save_current_msgid also notes the last block."""
    def g(h, tool, cls, name, args, run, log):
        inner = h.I.contracts[cls + '._save_current_msgid']

        def flush(I, v):
            at = (tool.fields[NUMBER], tool.fields[KIND])
            inner(I, v)
            log.flushed[-1]['at'] = at
        h.I.contracts[cls + '._save_current_msgid'] = flush
        check(h, tool, cls, name, args, run, log)
    return g


TASKS = [Task('reference of a message', reference, functions=(MD2PO + '._save_msgid',)),
         Task('start', constructed, functions=(MD2PO + '.__init__',)),
         Task('files', files, functions=(MD2PO + '.extract',))] + each_callback(with_place(step), classes=(MD2PO,))
TRUSTED = ['md4c gives well nested blocks']
