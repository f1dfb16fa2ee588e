"""P14: pairs and widths given as text arguments are parsed exactly or refused."""
from contracts.common import *
from pyvc import models

T = 'mdpo.text.'
CLI = 'mdpo.cli.'


def pair_contract(I, v):
    """parse_escaped_pair: the same text and separator always give the same pair or are always refused."""
    a = [v['value'], v['separator']]
    if I.truth(lib.uf(I, 'pair can be parsed', a, 'bool')):
        return lib.uf(I, 'key of the pair', a, 'str'), lib.uf(I, 'value of the pair', a, 'str')
    raise PyRaise(core.ExcV(ValueError, ()))


def outcome_fold(h, pairs, sep):
    I = h.I

    def step(I, st, x, i):
        m, err, bad = st
        if I.truth(core.enc(I.ctx, err, 'int') > 0):
            return st
        a = [x, sep]
        if not I.truth(lib.uf(I, 'pair can be parsed', a, 'bool')):
            return m, 1, x
        k = lib.uf(I, 'key of the pair', a, 'str')
        if I.truth(lib.contains(I, m, k)):
            return m, 2, k
        return put(I, m, k, lib.uf(I, 'value of the pair', a, 'str')), 0, bad
    return h.fold('pairs', pairs, [('map', ('map', 'str', 'str')), ('err', 'int'), ('bad', 'str')],
                  (VDict(I.ctx, {}, K='str', V='str'), 0, ''), step,
                  absorb=lambda I, st: SV('bool', core.enc(I.ctx, st[1], 'int') > 0), caps=(sep,))


def pairs(h):
    I = h.I
    I.contracts[T + 'parse_escaped_pair'] = pair_contract
    ps = h.fresh(('list', 'str'), 'pairs')
    sep = h.fresh('str', 'separator')
    f = outcome_fold(h, ps, sep)
    st, r = h.outcome(T + 'parse_escaped_pairs', ps, separator=sep)
    m, err, bad = f.total()
    if st == 'ok':
        h.check('no pair is refused', h.eq(err, 0))
        h.check('the mapping has exactly the keys and values of the pairs', h.eq(r, m))
    else:
        h.check('refused with the error of the first pair that has one',
                h.eq(err, 1 if r.cls is ValueError else 2 if r.cls is KeyError else 9))
        h.check('the error names the offending pair or key', h.eq(r.args[0], bad))


def absorbed(h):
    I = h.I
    ps = h.fresh(('list', 'str'), 'pairs')
    f = outcome_fold(h, ps, h.fresh('str', 'separator'))
    st = f.state(h.ctx.fresh('int', 'i').e)
    i = h.ctx.fresh('int', 'j')
    st = tuple(h.fresh(T, c) for c, T in f.comps)
    h.assume(f.absorb(I, st))
    new = f.step(I, st, h.fresh('str', 'x'), i)
    for (c, T), a, b in zip(f.comps, st, new):
        h.check(f'absorbing states are not changed ({c})', h.enc(a, T) == h.enc(b, T))


def pair(h):
    """key and value around the first separator after a character other than a backslash"""
    I = h.I
    v = h.fresh('str', 'value')
    st, r = h.outcome(T + 'parse_escaped_pair', v)
    text = lib.call_method(I, v, 'lstrip', ['\\'], {})
    found = lib.uf(I, 're.search finds', ['([^\\\\]:)', text], 'bool')
    if st == 'raise':
        h.check('refused only with a ValueError', r.cls is ValueError)
        h.check('refused only without an unescaped separator', z3.Not(h.term(found)))
    else:
        h.check('parsed only with an unescaped separator', found)
        b = lib.uf(I, 're.split before', ['([^\\\\]:)', text], 'str')
        g = lib.uf(I, 're.search group 1', ['([^\\\\]:)', text], 'str')
        a = lib.uf(I, 're.split after', ['([^\\\\]:)', text], 'str')
        key = lib.call_method(I, cat(I, b, lib.getitem(I, g, 0)), 'replace', ['\\\\:', ':', 1], {})
        h.check('key', h.eq(lib.getitem(I, r, 0), key))
        h.check('value', h.eq(lib.getitem(I, r, 1), lib.call_method(I, a, 'lstrip', [], {})))


def cli(name, whole):
    def f(h):
        I = h.I
        kind = h.fresh('int', 'kind')
        bad = h.fresh('str', 'offending')
        m = h.fresh(('map', 'str', 'str'), 'mapping')
        ps = h.fresh(('list', 'str'), 'pairs')

        def contract(I, v):
            h.check('the given pairs are parsed', h.eq(v['pairs'], ps))
            h.check('the separator is a colon', h.eq(v['separator'], ':'))
            if I.truth(I.eq(kind, 0)):
                return m
            raise PyRaise(core.ExcV(ValueError if I.truth(I.eq(kind, 1)) else KeyError, (bad,)))
        I.contracts[T + 'parse_escaped_pairs'] = contract
        if whole:
            a = h.fresh('str', 'before'), h.fresh('str', 'after')
            st, r = h.outcome(CLI + name, ps, 'Value {}\n', 'Key {}\n')
        else:
            st, r = h.outcome(CLI + name, ps)
        err = models.stream(I, 'stderr').fields['buf']
        if st == 'ok':
            h.check('returns only if the pairs are parsed', h.eq(kind, 0))
            h.check('returns the parsed mapping', h.eq(r, m))
            h.check('nothing is written', h.eq(err, ''))
        else:
            h.check('ends with the exit code 1', z3.And(z3.BoolVal(r.cls is SystemExit), h.eq(r.args[0], 1)))
            h.check('ends only if the pairs are refused', z3.Not(h.eq(kind, 0)))
            h.check('the message names the offending pair or key',
                    lib.contains(I, err, bad))
            if whole:
                want = cat(I, 'Value ' if I.truth(I.eq(kind, 1)) else 'Key ', bad, '\n')
                h.check('the message is the one of the error', h.eq(err, want))
    return Task(f'command line {name}', f, functions=(CLI + name,))


def width_spec(h, v):
    """None if refused, else the width."""
    I = h.I
    if isinstance(v, SV) and v.t == 'int':
        if I.truth(SV('bool', v.e >= 1)):
            return v
        return 65535
    if not I.truth(lib.uf(I, 'float() accepts', [v], 'bool')):
        return None
    x = core.enc(I.ctx, lib.uf(I, 'float', [v], ('opaque', 'float')), ('opaque', 'float'))
    val = z3.Function('float_value', core.opaque_sort('float'), z3.RealSort())(x)
    if I.truth(SV('bool', lib._fp('float_isnan')(x))):
        return None
    if I.truth(SV('bool', lib._fp('float_isinf')(x))):
        return 65535
    if I.truth(SV('bool', val >= 1)):
        return SV('int', z3.ToInt(val))
    return 65535


def width(fn, T_, running):
    def f(h):
        I = h.I
        v = h.fresh(T_, 'width')
        env = models.environ(I)
        if fn == 'parse_wrapwidth_argument':
            old = lib.dict_get(I, env, '_MDPO_RUNNING')
            if running:
                h.assume(lib.contains(I, env, '_MDPO_RUNNING'))
                h.assume(z3.Not(h.eq(old[1], '')))
            else:
                h.assume(z3.Not(h.term(lib.contains(I, env, '_MDPO_RUNNING'))))
        st, r = h.outcome(T + fn, v)
        want = width_spec(h, v)
        err = models.stream(I, 'stderr').fields['buf']
        if st == 'ok':
            h.check('accepted only if the width is a number', want is not None)
            h.check('width', h.eq(r, want))
            h.check('nothing is written', h.eq(err, ''))
        elif running:
            h.check('refused only if the width is not a number', want is None)
            h.check('ends with the exit code 1', z3.And(z3.BoolVal(r.cls is SystemExit), h.eq(r.args[0], 1)))
            h.check('a message is written', z3.Not(h.eq(err, '')))
        else:
            h.check('refused only if the width is not a number', want is None)
            h.check('refused with a ValueError', r.cls is ValueError)
    return Task(f'{fn} ({T_}{", command line" if running else ""})', f, functions=(T + fn,))


TASKS = [Task('pairs', pairs, functions=(T + 'parse_escaped_pairs',)), Task('absorbing states of pairs', absorbed),
         Task('pair', pair, functions=(T + 'parse_escaped_pair',)),
         cli('parse_escaped_pairs_cli_argument', True), cli('parse_command_aliases_cli_arguments', False),
         cli('parse_metadata_cli_arguments', False)] + \
    [width('parse_strint_0_inf', t, False) for t in ('str', 'int')] + \
    [width('parse_wrapwidth_argument', t, r) for t in ('str', 'int') for r in (False, True)]
TRUSTED = ['re.split at the first character other than a backslash followed by the separator (the groups of the'
           ' match are uninterpreted functions of the pattern and the text)',
           'float() accepts or refuses each text always in the same way; int() of a finite float truncates it']
