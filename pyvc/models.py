"""Trusted models of the modules that the verified code imports."""
import ast
import glob as _glob
import os as _os
import re as _re

import z3

from . import core, lib
from .core import (Choice, ExcV, Native, PyRaise, SV, SymSeq, Unsupported, VDict, VList, VObj, VRef, VSet,
                   dec, enc, opt_dt, sort_of, type_of)
from .interp import Bound, ClassV, FuncV, Host, ModuleV, NativeClass, SymIter
from .lib import N, Suppress, is_str, uf


def mod(name, **vs):
    m = ModuleV(name)
    m.vars.update(vs)
    return m


def pure(name, T, py=None):
    """Deterministic library function kept uninterpreted (evaluated for concrete arguments)."""
    def f(I, a, k):
        a = [I.force(x) for x in a]
        if k:
            raise Unsupported(f'{name} with keywords')
        if py is not None and all(lib._plain(x) for x in a):
            try:
                return py(*a)
            except Exception as e:
                raise PyRaise(ExcV(type(e), tuple(e.args), implicit=True)) from None
        for x in a:
            if x is None:
                raise PyRaise(ExcV(TypeError, (name,), implicit=True))
        return uf(I, name, a, T)
    return N(f, name)


# ------------------------------------------------------------------------------- file system and process

def fs(I):
    """Ghost file system: mapping of paths to the bytes of the files."""
    g = I.ctx.ghost
    if 'fs' not in g:
        e = z3.Const('FS0', sort_of(('map', 'str', 'bytes')))
        g['fs'] = VDict(I.ctx, e, name='filesystem', K='str', V='bytes')
        g['fs0'] = e
        # sequence of paths opened for writing
        g['writes'] = VList(I.ctx, [], name='writes', T='str')
    return g['fs']


LOCALE = '<encoding of the locale>'


def encoding_name(I, e):
    e = I.force(e)
    return LOCALE if e is None else e


def encoded(I, text, e):
    """Bytes written for a text (newlines are written as they are: os.linesep is a line feed)."""
    e = encoding_name(I, e)
    r = uf(I, 'bytes of the text with the encoding', [text, e], 'bytes')
    back = uf(I, 'text of the bytes with the encoding', [r, e], 'str')
    I.run.trusted.add('codecs: decoding the bytes of a text without carriage returns with its encoding gives the text')
    t = enc(I.ctx, text, 'str')
    I.ctx.assume(z3.Implies(z3.Not(z3.Contains(t, z3.StringVal('\r'))), back.e == t))
    return r


def decoded(I, b, e):
    """Text read from a file (newlines normalised)."""
    return uf(I, 'text of the bytes with the encoding', [b, encoding_name(I, e)], 'str')


def file_open(I, a, k):
    path = I.force(a[0])
    mode = I.force(a[1]) if len(a) > 1 else I.force(k.get('mode', 'r'))
    if not isinstance(mode, str):
        raise Unsupported('open with a symbolic mode')
    if not is_str(path):
        lib.type_error(I, 'open', path)
    if set(k) - {'mode', 'encoding'} or len(a) > 2:
        raise Unsupported('open with more arguments')
    encoding = I.force(k.get('encoding'))
    f = VObj(I.ctx, FILE, {'path': path, 'mode': mode, 'encoding': encoding, 'buf': '', 'pos': 0})
    d = fs(I)
    if mode == 'w':
        lib.setitem(I, d, path, encoded(I, '', encoding))
        lib.list_append(I, I.ctx.ghost['writes'], path)
    elif mode in ('r', 'rb', 'rt'):
        found, v = lib.dict_get(I, d, path)
        if not found:
            raise PyRaise(ExcV(FileNotFoundError, (path,), implicit=False))
        if 'b' not in mode and I.env.get('fs.undecodable'):
            if I.truth(uf(I, 'the bytes cannot be decoded', [v, encoding_name(I, encoding)], 'bool')):
                raise PyRaise(ExcV(UnicodeDecodeError, ('decode',), implicit=True))
    else:
        raise Unsupported(f'open mode {mode}')
    return f


def f_read(I, f):
    if 'w' in f.fields['mode']:
        raise Unsupported('reading a file opened to write')
    if f.fields['pos']:
        return b'' if 'b' in f.fields['mode'] else ''
    found, v = lib.dict_get(I, fs(I), f.fields['path'])
    f.fields['pos'] = 1
    return v if 'b' in f.fields['mode'] else decoded(I, v, f.fields['encoding'])


def f_readlines(I, f):
    found, v = lib.dict_get(I, fs(I), f.fields['path'])
    if 'b' in f.fields['mode']:
        return binary_lines(I, v)
    return uf(I, 'lines of the text', [decoded(I, v, f.fields['encoding'])], ('list', 'str'))


def binary_lines(I, content):
    return uf(I, 'lines of the bytes', [content], ('list', 'bytes'))


def f_write(I, f, x):
    x = I.force(x)
    if f.fields['mode'] != 'w' or not is_str(x):
        raise PyRaise(ExcV(TypeError, ('write',), implicit=True))
    t = lib.concat_strs(I, [I.force(f.fields['buf']), x])
    I.setattr(f, 'buf', t)
    lib.setitem(I, fs(I), f.fields['path'], encoded(I, t, f.fields['encoding']))
    return None


def f_enter(I, f, body):
    body(f)


FILE = NativeClass('file', {'read': f_read, 'readlines': f_readlines, 'write': f_write, '__enter__': f_enter,
                            'close': lambda I, f: None, '__iter__': lambda I, f: f_readlines(I, f)})


def m_os(I):
    def isfile(I, a, k):
        p = I.force(a[0])
        if not is_str(p):
            lib.type_error(I, 'isfile', p)
        return lib.wrapb(lib.contains(I, fs(I), p))

    def exists(I, a, k):
        p = I.force(a[0])
        return lib.wrapb(z3.Or(lib.contains(I, fs(I), p), isdir_t(I, p)))

    def isdir_t(I, p):
        if I.env.get('fs.dirs'):
            return lib.contains(I, directories(I), p)
        d = uf(I, 'os.path.isdir', [p], 'bool')
        return lib.truth_term(I, d)

    def isdir(I, a, k):
        return lib.wrapb(isdir_t(I, I.force(a[0])))

    def makedirs(I, a, k):
        g = I.ctx.ghost.setdefault('makedirs', VList(I.ctx, [], name='makedirs'))
        lib.list_append(I, g, I.force(a[0]))
        if I.env.get('fs.dirs'):
            d = directories(I)
            d.set(made(I, d, I.force(a[0])))

    def join(I, a, k):
        a = [I.force(x) for x in a]
        if all(isinstance(x, str) for x in a):
            return _os.path.join(*a)
        return uf(I, f'os.path.join/{len(a)}', a, 'str')

    def split(I, a, k):
        # by definition
        return tuple(I.call(f, a) for f in (dirname, basename))

    def splitext(I, a, k):
        p = I.force(a[0])
        if isinstance(p, str):
            return _os.path.splitext(p)
        from .core import enc
        r = uf(I, 'os.path.splitext', [p], ('tuple', 'str', 'str'))
        I.ctx.assume(z3.Concat(*[enc(I.ctx, I.force(x), 'str') for x in I.force(r)]) == enc(I.ctx, p, 'str'))
        return r
    basename = pure('os.path.basename', 'str', _os.path.basename)
    dirname = pure('os.path.dirname', 'str', _os.path.dirname)
    path = mod('os.path', isfile=N(isfile, 'isfile'), exists=N(exists, 'exists'), isdir=N(isdir, 'isdir'),
               basename=basename,
               dirname=dirname,
               abspath=pure('os.path.abspath', 'str'),
               normpath=pure('os.path.normpath', 'str', _os.path.normpath),
               splitext=N(splitext, 'os.path.splitext'), split=N(split, 'os.path.split'),
               join=N(join, 'join'), sep='/')
    env = environ(I)
    return mod('os', path=path, sep='/', linesep='\n', makedirs=N(makedirs, 'makedirs'),
               environ=env, getenv=N(lambda I, a, k: lib.dict_method(I, env, 'get', a, k), 'getenv'))


DIRS = ('set', 'str')


def directories(I):
    """The directories that exist (used with I.env['fs.dirs'])."""
    g = I.ctx.ghost
    if 'dirs' not in g:
        g['dirs'] = VSet(I.ctx, z3.Const('DIRS0', sort_of(DIRS)), T='str', name='directories')
    return g['dirs']


def made(I, dirs, path):
    """The directories after making one with its parents: a function of those before and of the path."""
    from .core import enc
    return enc(I.ctx, uf(I, 'os.makedirs', [dirs, path], DIRS), DIRS)


def environ(I):
    g = I.ctx.ghost
    if 'environ' not in g:
        e = z3.Const('ENV0', sort_of(('map', 'str', 'str')))
        g['environ0'] = e
        g['environ'] = VDict(I.ctx, e, name='os.environ', K='str', V='str')
    return g['environ']


STREAM = NativeClass('stream', {
    'write': lambda I, o, x: I.setattr(o, 'buf', lib.concat_strs(I, [I.force(o.fields['buf']), I.force(x)])),
    'isatty': lambda I, o: I.ctx.ghost.setdefault('isatty', I.ctx.fresh('bool', 'isatty')),
    'flush': lambda I, o: None,
    'read': lambda I, o: I.ctx.ghost.setdefault('stdin', I.ctx.fresh('str', 'stdin'))})


def stream(I, name):
    g = I.ctx.ghost
    if name not in g:
        g[name] = VObj(I.ctx, STREAM, {'buf': ''}, name=name)
    return g[name]


def m_sys(I):
    def exit_(I, a, k):
        raise PyRaise(ExcV(SystemExit, tuple(a)))
    return mod('sys', stdout=stream(I, 'stdout'), stderr=stream(I, 'stderr'), stdin=stream(I, 'stdin_s'),
               exit=N(exit_, 'sys.exit'), argv=VList(I.ctx, []), modules=VDict(I.ctx, {}))


def m_glob(I):
    def g(I, a, k):
        p = I.force(a[0])
        if not is_str(p):
            raise PyRaise(ExcV(TypeError, ('glob of a list',)))
        bad = uf(I, 'glob raises re.error', [p], 'bool')
        if I.env.get('glob.valid'):
            I.run.trusted.add('the globs given in lists are valid patterns')
        elif I.truth(bad):
            raise PyRaise(ExcV(RE_ERROR, ('bad character range',)))
        return uf(I, 'glob.glob', [p], ('list', 'str'))
    return mod('glob', glob=N(g, 'glob.glob'), escape=pure('glob.escape', 'str', _glob.escape))


RE_ERROR = _re.error


def m_contextlib(I):
    return mod('contextlib', contextmanager=N(None, 'contextmanager'),
               suppress=N(lambda I, a, k: Suppress(tuple(a)), 'suppress'))


def m_itertools(I):
    ch = N(lambda I, a, k: lib.Chain_(VList(I.ctx, a)), 'chain')
    c = VObj(I.ctx, NativeClass('chain', {'from_iterable': lambda I, o, x: lib.Chain_(x)}), {})
    return mod('itertools', chain=ch)


# ------------------------------------------------------------------------------- regular expressions

def rx_flat(I, p):
    p = I.force(p)
    if isinstance(p, VObj) and p.cls is REGEX:
        return p.fields['pattern']
    return p


def rx_match(I, kind, p, s):
    p, s = rx_flat(I, p), I.force(s)
    if not is_str(s):
        raise PyRaise(ExcV(TypeError, ('expected string',), implicit=True))
    if 're.match' in I.env:
        # contract of the task for the only regular expression of the function
        gs = I.env['re.match'](I, s)
        return gs and VObj(I.ctx, MATCH, {'_groups': gs, 'all': uf(I, f're.{kind} group 0', [s], 'str')})
    if isinstance(p, str) and isinstance(s, str):
        m = getattr(_re, kind)(p, s)
        if m is None:
            return None
        return VObj(I.ctx, MATCH, {'_groups': m.groups(), 'all': m.group(0)})
    if not isinstance(p, str):
        raise Unsupported('symbolic pattern')
    n = _re.compile(p).groups
    if not I.truth(uf(I, f're.{kind} finds', [p, s], 'bool')):
        return None
    gs = tuple(uf(I, f're.{kind} group {j + 1}', [p, s], ('opt', 'str')) for j in range(n))
    return VObj(I.ctx, MATCH, {'_groups': gs, 'all': uf(I, f're.{kind} group 0', [p, s], 'str')})


def m_group(I, m, *js):
    js = [I.force(j) for j in js] or [0]
    vs = tuple(m.fields['all'] if j == 0 else m.fields['_groups'][j - 1] for j in js)
    return vs[0] if len(vs) == 1 else vs


MATCH = NativeClass('match', {'groups': lambda I, m: m.fields['_groups'], 'group': m_group,
                              '__getitem__': m_group})


def rx_split(I, p, s, maxsplit=0):
    p, s = rx_flat(I, p), I.force(s)
    if isinstance(p, str) and isinstance(s, str):
        return VList(I.ctx, _re.split(p, s, maxsplit=maxsplit))
    if maxsplit != 1:
        raise Unsupported('re.split')
    if isinstance(p, str):
        n = _re.compile(p).groups
    else:
        n = 1
    if not I.truth(uf(I, 're.search finds', [p, s], 'bool')):
        return VList(I.ctx, [s])
    b = uf(I, 're.split before', [p, s], 'str')
    a = uf(I, 're.split after', [p, s], 'str')
    gs = [uf(I, f're.search group {j + 1}', [p, s], 'str') for j in range(n)]
    if n == 1:
        I.ctx.assume(z3.Length(enc(I.ctx, gs[0], 'str')) >= 1)
    return VList(I.ctx, [b] + gs + [a])


def rx_findall(I, p, s):
    p = rx_flat(I, p)
    n = _re.compile(p).groups if isinstance(p, str) else 0
    T = 'str' if n < 2 else ('tuple',) + ('str',) * n
    return uf(I, 're.findall', [p, s], ('list', T))


def rx_sub(I, p, r, s):
    return uf(I, 're.sub', [rx_flat(I, p), r, s], 'str')


REGEX = NativeClass('regex', {
    'search': lambda I, o, s: rx_match(I, 'search', o, s), 'match': lambda I, o, s: rx_match(I, 'match', o, s),
    'fullmatch': lambda I, o, s: rx_match(I, 'fullmatch', o, s),
    'split': lambda I, o, s, maxsplit=0: rx_split(I, o, s, maxsplit),
    'findall': lambda I, o, s: rx_findall(I, o, s), 'sub': lambda I, o, r, s: rx_sub(I, o, r, s)})


def m_re(I):
    I_ = I
    def kw(f):
        return N(lambda I, a, k: f(I, *a, **k), 're')
    return mod('re', compile=N(lambda I, a, k: VObj(I.ctx, REGEX, {'pattern': I.force(a[0])}), 're.compile'),
               search=kw(lambda I, p, s: rx_match(I, 'search', p, s)),
               match=kw(lambda I, p, s: rx_match(I, 'match', p, s)),
               fullmatch=kw(lambda I, p, s: rx_match(I, 'fullmatch', p, s)),
               split=kw(lambda I, p, s, maxsplit=0: rx_split(I, p, s, I.force(maxsplit))),
               findall=kw(lambda I, p, s: rx_findall(I, p, s)),
               sub=kw(lambda I, p, r, s: rx_sub(I, p, r, s)), error=RE_ERROR)


# ------------------------------------------------------------------------------- md4c, polib, wrapping

def host_enums():
    import site
    site.addsitedir('/opt/venv/lib/python3.12/site-packages')
    import md4c
    return md4c


def generic_parser(I, a, k):
    if 'GenericParser' not in I.env:
        raise Unsupported('md4c.GenericParser without contract')
    return I.env['GenericParser'](I, a, k)


def m_md4c(I):
    md4c = host_enums()
    return mod('md4c', MD_FLAG_TABLES=0x0100, HTMLRenderer=NativeClass('HTMLRenderer', {
        'parse': lambda I, o, s: uf(I, 'md4c.HTMLRenderer.parse', [s], 'str')}, init=lambda I, a, k: VObj(I.ctx, NativeClass('HTMLRenderer', {
        'parse': lambda I, o, s: uf(I, 'md4c.HTMLRenderer.parse', [s], 'str')}), {})), BlockType=md4c.BlockType, SpanType=md4c.SpanType, TextType=md4c.TextType,
               Align=md4c.Align, GenericParser=NativeClass('GenericParser', init=generic_parser))


POENTRY_SCHEMA = {
    'msgid': 'str', 'msgstr': 'str', 'msgctxt': ('opt', 'str'), 'msgid_plural': ('opt', 'str'),
    'obsolete': 'bool', 'comment': ('opt', 'str'), 'tcomment': ('opt', 'str'),
    'flags': ('list', 'str'), 'occurrences': ('list', ('tuple', 'str', 'str')),
    'msgstr_plural': ('opaque', 'plural'),
}

DEFAULTS = {'msgid': '', 'msgstr': '', 'msgctxt': None, 'msgid_plural': '', 'obsolete': False, 'comment': '',
            'tcomment': '', 'flags': (), 'occurrences': ()}


def poentry_new(I, a, k):
    I.run.trusted.add('polib.POEntry constructor stores its keyword arguments')
    if a:
        raise Unsupported('positional arguments of POEntry')
    r = I.ctx.new_ref('POEntry')
    for f, T in POENTRY_SCHEMA.items():
        if f == 'msgstr_plural':
            e = z3.Const('no_plural', sort_of(T))
            I.ctx.heap_write('POEntry', f, r.e, e)
            continue
        v = k.pop(f, DEFAULTS[f])
        if isinstance(T, tuple) and T[0] == 'list':
            v = lib.to_list(I, v if v is not None else ())
        v = lib.coerce(I, v, T)
        I.ctx.heap_write('POEntry', f, r.e, enc(I.ctx, v, T))
    if k:
        raise Unsupported(f'POEntry arguments {sorted(k)}')
    return r


def poentry_attr(I, o, n):
    if n == 'fuzzy':
        return lib.wrapb(lib.contains(I, I.ctx.heap_read(o, 'flags'), 'fuzzy'))
    if n == 'msgstr_plural':
        e = z3.Select(I.ctx.heap_array('POEntry', 'msgstr_plural'), o.e)
        none = z3.Const('no_plural', e.sort())
        # polib stores a mapping, empty for entries without plural forms
        return PluralV(I, e, none)
    return NotImplemented


def PluralV(I, e, none):
    return Choice([(e == none, VDict(I.ctx, {})), (e != none, SV(('opaque', 'plural'), e))])


def m_polib(I):
    return mod('polib', POEntry=NativeClass('POEntry', init=poentry_new),
               POFile=NativeClass('POFile'),
               escape=pure('polib.escape', 'str', None), unescape=pure('polib.unescape', 'str', None),
               pofile=N(lambda I, a, k: I.env['polib.pofile'](I, a, k), 'polib.pofile'))


def m_ulb(I):
    def wrap(I, a, k):
        a = [I.force(x) for x in a]
        if 'ulb_wrap_paragraph' in I.env:
            return I.env['ulb_wrap_paragraph'](I, a, k)
        return uf(I, 'md_ulb_pwrap.ulb_wrap_paragraph', a, 'str')
    return mod('md_ulb_pwrap', ulb_wrap_paragraph=N(wrap, 'ulb_wrap_paragraph'))


def m_importlib(I):
    return mod('importlib')


def m_locale(I):
    return mod('locale', getpreferredencoding=N(lambda I, a, k: LOCALE, 'locale.getpreferredencoding'),
               getencoding=N(lambda I, a, k: LOCALE, 'locale.getencoding'))


def m_datetime(I):
    t = NativeClass('datetime', {'strftime': lambda I, o, f: I.ctx.fresh('str', 'time'),
                                 'isoformat': lambda I, o: I.ctx.fresh('str', 'time')})
    now = N(lambda I, a, k: VObj(I.ctx, t, {}), 'datetime.now')
    return mod('datetime', datetime=mod('datetime.datetime', now=now))


def m_warnings(I):
    return mod('warnings', warn=N(lambda I, a, k: None, 'warnings.warn'))


def m_html(I):
    import html
    return mod('html', unescape=pure('html.unescape', 'str', html.unescape), escape=pure('html.escape', 'str', html.escape))


MODULES = {'html': m_html, 'datetime': m_datetime, 'locale': m_locale, 'warnings': m_warnings, 'os': m_os, 'sys': m_sys, 'glob': m_glob, 'contextlib': m_contextlib, 're': m_re,
           'md4c': m_md4c, 'polib': m_polib, 'md_ulb_pwrap': m_ulb, 'itertools': m_itertools}
