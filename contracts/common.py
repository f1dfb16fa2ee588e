"""Specification helpers shared by the contracts."""
import z3

from pyvc import core, lib
from pyvc.api import *
from pyvc.core import zstr
from pyvc.interp import NativeClass


def S(x):
    return z3.StringVal(x)


def cat(I, *parts):
    return lib.concat_strs(I, list(parts))


def append(I, lst, x):
    o = lib.list_copy(I, lst)
    lib.list_append(I, o, x)
    return o


def extend(I, lst, x):
    o = lib.list_copy(I, lst)
    lib.list_extend(I, o, x)
    return o


def empty(I, T='str'):
    return VList(I.ctx, [], T=T)


def prefix(x, lit):
    return z3.PrefixOf(S(lit), x.e)


def opaque(name):
    return ('opaque', name)


def namespace(types, default=('opaque', 'any'), name='namespace'):
    """Object whose attributes are unknown values of the given types."""
    def fb(I, o, n):
        return I.ctx.fresh(types.get(n, default), n)
    c = NativeClass(name)
    c.fallback = fb
    return c


def unknown_instance(I, types, name='namespace', default=('opaque', 'any')):
    return VObj(I.ctx, namespace(types, default, name), {})


def put(I, m, k, v):
    """Mapping with one more pair."""
    d = lib.call_method(I, m, 'copy', [], {})
    lib.setitem(I, d, k, v)
    return d


def stub_inputs(h, glob=None):
    """Contracts of the functions that read the inputs of the tools (unknown results)."""
    I = h.I
    I.contracts['mdpo.io.to_files_or_content'] = \
        lambda I, v: (I.ctx.fresh('bool', 'is_glob') if glob is None else glob, I.ctx.fresh('str', 'content'))
    I.contracts['mdpo.io.filter_paths'] = lambda I, v: I.ctx.fresh(('list', 'str'), 'paths')
    I.contracts['mdpo.po.paths_or_globs_to_unique_pofiles'] = \
        lambda I, v: I.ctx.fresh(('list', ('ref', 'POFile')), 'pofiles')


def fresh_items(h, K, V, hint):
    """Unknown mapping with its pairs in order."""
    m = h.fresh(('map', K, V), hint)
    m.order = core.SymSeq(h.ctx.fresh_term(('list', ('tuple', K, V)), hint + '_items'), ('tuple', K, V))
    return m


# ---------------------------------------------------------------------------- tools driven by their parser

MD2PO, PO2MD = 'mdpo.md2po.Md2Po', 'mdpo.po2md.Po2Md'
ATTR = ('opt', ('list', ('tuple', ('opaque', 'TextType'), 'str')))


class Done(Exception):
    """The harness needs nothing of what the tool does after the script."""


class Events:
    """The callbacks that a tool gave to the parser."""

    def __init__(self, h, tool, fns, content):
        self.h, self.tool, self.content = h, tool, content
        self.fns = fns

    def __getattr__(self, n):
        i = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text').index(n)
        return lambda *a: self.h.call(self.fns[i], *a)


def md4c(h):
    from pyvc import models
    return models.host_enums()


def details(h, **k):
    """Details of a block or a span."""
    return VDict(h.ctx, dict(k))


def attr(h, name):
    """Unknown attribute of a span or a block."""
    return h.fresh(ATTR, name)


def attribute_contract(I):
    """attribute_text: function of the attribute, empty for no attribute."""
    def f(I, v):
        a = I.force(v['attribute'])
        if a is None:
            return ''
        return lib.uf(I, 'attribute_text', [a], 'str')
    I.contracts['mdpo.md4c.attribute_text'] = f


def new_tool(h, cls, glob=False, **options):
    """Tool made by its real constructor for unknown inputs."""
    stub_inputs(h, glob)
    return h.call(cls, 'x', **options)


def drive(h, tool, script, finish=False, document=None, arguments=None, **kwargs):
    """Runs the real extract() or translate() of the tool with a parser that emits the events of the script.

    The parser is the contract of md4c: it calls the five callbacks that it is given.  If ``finish`` is false,
    nothing of what the tool does after the script is executed.
    """
    I = h.I

    def parse(I, o, content, *fns):
        if len(fns) != 5:
            raise Unsupported('GenericParser.parse without five callbacks')
        script(Events(h, tool, fns, content))
        if not finish:
            raise Done()
    P = NativeClass('GenericParser', {'parse': parse})

    def make(I, a, k):
        if arguments is not None:
            arguments.append((a, k))
        return VObj(I.ctx, P, {})
    I.env['GenericParser'] = make
    I.run.trusted.add('md4c.GenericParser.parse: only calls the five callbacks that it is given')
    if 'polib.pofile' not in I.env:
        I.env['polib.pofile'] = lambda I, a, k: I.ctx.fresh(('ref', 'POFile'), 'pofile')
    I.contracts.setdefault('mdpo.po.pofiles_to_unique_translations_dicts', lambda I, v: (
        I.ctx.fresh(('map', 'str', 'str'), 'translations'),
        I.ctx.fresh(('map', 'str', ('map', 'str', 'str')), 'translations_with_msgctxt')))
    I.contracts.setdefault('mdpo.io.to_file_content_if_is_file', lambda I, v: I.ctx.fresh('str', 'content'))
    name = 'extract' if 'extract' in tool.cls.vars else 'translate'
    try:
        return h.method(tool, name, *(() if name == 'extract' else (h.fresh('str', 'document') if document is None else document,)),
                        **kwargs)
    except Done:
        return None


def html_parser(h, feed):
    """Contract of html.parser.HTMLParser: feed(text) calls handlers (given), the others do nothing here."""
    def fields(I, o, n):
        if n == 'feed':
            return core.Native(lambda I, a, k: feed(a[0]), 'feed')
        if n in ('reset', 'close'):
            return core.Native(lambda I, a, k: None, n)
        return NotImplemented
    h.I.env['fields:MdPo2HTML'] = fields
    h.I.run.trusted.add('html.parser.HTMLParser: feed, reset and close only call the handlers')
