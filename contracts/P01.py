"""P01: re-extraction never loses or alters existing translations."""
from contracts.entries import *
from contracts.messages import MD2PO, any_state, each_callback, leaves, md4c


def stored(h):
    """_save_msgid from any state, over any PO file."""
    I = h.I
    leaves(h)
    tool = any_state(h, MD2PO, lists=('disabled_entries', 'translated_entries'))
    tool.fields['_current_top_level_block_type'] = md4c(h).BlockType.P.value
    entries, before_found = h.fresh(('list', ENTRY), 'entries'), h.fresh(('list', ENTRY), 'found')
    tool.fields['found_entries'] = lib.list_copy(I, before_found)
    file = File(h, lib.list_copy(I, entries))
    tool.fields['pofile'] = file.obj
    ignored = tool.fields['ignore_msgids']
    hp = Heap(h)
    a = dict(msgid=h.fresh('str', 'msgid'), msgstr=h.fresh('str', 'msgstr'), tcomment=h.fresh(('opt', 'str'), 'tcomment'),
             msgctxt=h.fresh(('opt', 'str'), 'msgctxt'), fuzzy=h.fresh('bool', 'fuzzy'))
    searched = []

    def find(I, v):
        e, kw = I.force(v['entry']), v.get('kwargs')
        flags = {k: True for k in FLAGS}
        for k, x in list(kw.get().items()) if kw is not None else []:
            flags[k] = x
        h.check('occurrences are not compared', z3.Not(h.term(flags['compare_occurrences'])))
        now = Heap(h)
        h.check('the PO file is searched', z3.BoolVal(v['entries'] is file.obj or v['entries'] is file.obj.fields['entries']))
        f = first_fold(h, now, needle(h, now, e), file.obj.fields['entries'], flags['compare_obsolete'], flags['compare_msgstr'])
        r = I.force(f.total()[0])
        if r is not None:
            I.ctx.assume(z3.And(r.e >= 0, r.e < OLD))
        searched.append(True)
        return r
    I.contracts[FIND] = find
    h.method(tool, '_save_msgid', **a)
    now = Heap(h)
    x = z3.Int('some entry')
    h.check('no entry that was there is changed', z3.Implies(z3.And(x >= 0, x < OLD), z3.And(
        [now.term(x, f) == hp.term(x, f) for f in hp.arrays])))
    got, fe = file.obj.fields['entries'], tool.fields['found_entries']
    if h.truth(lib.contains(I, ignored, a['msgid'])):
        h.check('an ignored message is not recorded', h.eq(fe, before_found))
        h.check('an ignored message is not stored', h.eq(got, entries))
        return
    n = lib.b_len(I, [before_found], {})
    h.check('the message is recorded once', h.eq(lib.b_len(I, [fe], {}), SV('int', core.enc(I.ctx, n, 'int') + 1)))
    e = lib.getitem(I, fe, n)
    h.check('the messages recorded before are kept', h.eq(fe, append(I, before_found, e)))
    h.check('it is a new entry', h.term(e.e > OLD))
    for f in 'msgid', 'msgctxt':
        h.check(f'the {f} of the entry', h.eq(now.get(e, f), a[f]))
    h.check('it has no plural forms', plain(h, now, e))
    h.check('it is active', z3.Not(now.term(e, 'obsolete')))
    nd = dict(msgid=a['msgid'].e, msgctxt=text_of(h, a['msgctxt']), msgid_plural=z3.StringVal(''))
    first = I.force(first_fold(h, now, nd, entries, False, False).total()[0])
    flags = now.get(e, 'flags')
    if first is not None:
        I.ctx.assume(z3.And(first.e >= 0, first.e < OLD))
    fuzzy = h.term(a['fuzzy'])
    if first is not None and h.truth(z3.Not(h.eq(hp.get(first, 'msgstr'), ''))):
        h.check('it takes the translation that was there', h.eq(now.get(e, 'msgstr'), hp.get(first, 'msgstr')))
        fuzzy = lib.contains(I, hp.get(first, 'flags'), 'fuzzy')
        h.check('it is fuzzy as the entry that was there', h.term(lib.contains(I, flags, 'fuzzy')) == h.term(fuzzy))
    else:
        h.check('it takes the default translation', h.eq(now.get(e, 'msgstr'), a['msgstr']))
        h.check('it is fuzzy as the default translation', h.term(lib.contains(I, flags, 'fuzzy')) == fuzzy)
    n = file.count(entries, e, now)
    if h.truth(n >= 1):
        if h.truth(z3.And(n > 1, z3.Not(h.eq(a['msgctxt'], None)))):
            return          # malformed PO file: the entry is there twice
        h.check('nothing is appended if there is an active entry', h.eq(got, entries))
    else:
        h.check('the entry is appended at the end, once', h.eq(got, append(I, entries, e)))


def untouched(h, tool, cls, name, args, run, log):
    """The steps of the extractor use the PO file and the found entries only through _save_msgid."""
    I = h.I
    before = h.fresh(('list', ENTRY), 'entries')
    tool.fields['pofile'] = File(h, lib.list_copy(I, before)).obj
    po = tool.fields['pofile']
    found = h.fresh(('list', ENTRY), 'found')
    tool.fields['found_entries'] = lib.list_copy(I, found)
    hp = Heap(h)
    run()
    now = Heap(h)
    h.check('the PO file of the tool is the same', tool.fields['pofile'] is po)
    h.check('the entries of the PO file are the same', h.eq(po.fields['entries'], before))
    h.check('the recorded messages are the same', h.eq(tool.fields['found_entries'], found))
    x = z3.Int('some entry')
    h.check('no entry is changed', z3.Implies(z3.And(x >= 0, x < OLD), z3.And(
        [now.term(x, f) == hp.term(x, f) for f in hp.arrays])))


def flushed(h):
    """_save_current_msgid stores the current message with its notes and the default translation."""
    I = h.I
    leaves(h)
    tool = any_state(h, MD2PO)
    log = []
    I.contracts[MD2PO + '._save_msgid'] = lambda I, v: log.append(dict(v))
    f = dict(tool.fields)
    msgstr, fuzzy = h.fresh('str', 'msgstr'), h.fresh('bool', 'fuzzy')
    h.method(tool, '_save_current_msgid', msgstr=msgstr, fuzzy=fuzzy)
    h.check('at most one message', len(log) <= 1)
    for v in log:
        h.check('the message', h.eq(v['msgid'], f['current_msgid']))
        h.check('the context', h.eq(v['msgctxt'], f['current_msgctxt']))
        h.check('the comment', h.eq(v['tcomment'], f['current_tcomment']))
        h.check('the fuzzy mark', h.term(v['fuzzy']) == h.term(fuzzy))
        if h.truth(z3.Not(h.eq(msgstr, ''))):
            h.check('the default translation given', h.eq(v['msgstr'], msgstr))
        else:
            h.check('the default translation of the tool', h.eq(v['msgstr'], f['msgstr']))


def extraction(h):
    """extract works on the entries of the given PO file and changes them only through the steps."""
    I = h.I
    leaves(h)
    glob = choose_(h, 'files')
    tool = new_tool(h, MD2PO, glob=glob, mark_not_found_as_obsolete=False)
    I.contracts[MD2PO + '._dump_link_references'] = lambda I, v: None
    before = h.fresh(('list', ENTRY), 'entries')
    file = File(h, lib.list_copy(I, before))
    path = h.fresh('str', 'po_filepath')
    loads = []

    def load(I, a, k):
        loads.append(I.force(a[0] if a else k.get('pofile')))
        return file.obj
    I.env['polib.pofile'] = load
    hp = Heap(h)
    box = []

    def script(ev):
        if not box:
            box.append(1)
            h.check('the PO file is read before the first message', len(loads) == 1)
        h.check('the messages are stored in the PO file that was read', tool.fields['pofile'] is file.obj)
    try:
        drive(h, tool, script, finish=True, po_filepath=path)
    except core.PyRaise:
        raise core.Infeasible() from None      # files that cannot be read
    h.check('the PO file is read once', len(loads) == 1)
    has = lib.contains(I, I.ctx.ghost['fs'], path)
    h.check('the PO file given is read', z3.Implies(z3.And(h.term(has), z3.Not(h.eq(path, ''))), h.eq(loads[0], path)))
    h.check('its entries are kept', h.eq(file.obj.fields['entries'], before))
    now = Heap(h)
    h.check('no entry is changed', z3.And([now.arrays[f] == hp.arrays[f] for f in hp.arrays]))


TASKS = search_tasks() + [
    Task('message over a PO file', stored, functions=(MD2PO + '._save_msgid',)),
    Task('current message', flushed, functions=(MD2PO + '._save_current_msgid',)),
    Task('extraction', extraction, functions=(MD2PO + '.extract',))] + each_callback(untouched, classes=(MD2PO,))
TRUSTED = ['entries of PO files without plural text have no plural translations']
