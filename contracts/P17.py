"""P17: command line runs leave the environment as it was."""
from contracts import P10
from contracts.common import *

ENV = ('map', 'str', 'str')


def environment(h):
    return enc(h.ctx, models.environ(h.I), ENV)


def changed(h, name):
    """The body changes any variable (those of the run as well)."""
    e = h.ctx.fresh_term(ENV, name)
    models.environ(h.I).set(e)
    return e


def restored(h, what, before, end, after, keys):
    """after: variables of the run as before, the others as the body left them (any variable q)."""
    q = h.fresh('str', 'variable').e
    mine = z3.Or([q == k for k in keys])
    h.check(f'{what}: the variables of the run have their previous value or do not exist again',
            z3.Implies(mine, z3.Select(after, q) == z3.Select(before, q)))
    h.check(f'{what}: the other variables were not changed by the environment',
            z3.Implies(z3.Not(mine), z3.Select(after, q) == z3.Select(end, q)))


def context(n, ending):
    """with environ(a=x, b=y, ...): any body, with n variables of any names."""
    def f(h):
        I = h.I
        I.env['dict.fork'] = True
        names = [h.fresh('str', f'name{j}') for j in range(n)]
        values = [h.fresh('str', f'value{j}') for j in range(n)]
        for j in range(n):
            for k in range(j):
                h.assume(names[j].e != names[k].e)
        before = environment(h)
        box = {}

        def body(x):
            during = environment(h)
            for k, v in zip(names, values):
                h.check('during the run the variables have the values of the run',
                        z3.Select(during, k.e) == opt_dt('str')[2](v.e))
            q = h.fresh('str', 'variable').e
            h.check('during the run the other variables are as before', z3.Implies(
                z3.And([q != k.e for k in names]), z3.Select(during, q) == z3.Select(before, q)))
            box['end'] = changed(h, 'end') if h.truth(h.fresh('bool', 'body changes variables')) else during
            if ending == 'raises':
                raise core.PyRaise(core.ExcV(ValueError, ('x',)))
            if ending == 'exits':
                raise core.PyRaise(core.ExcV(SystemExit, (1,)))
            if ending == 'interrupted':
                raise core.PyRaise(core.ExcV(KeyboardInterrupt, ()))
        cm = h.call('mdpo.io.environ', **{}) if not n else I.call(h.func('mdpo.io.environ'), [], dict(zip(names, values)))
        st = 'ends'
        try:
            lib.enter_context(I, cm, body)
        except core.PyRaise as e:
            st = {ValueError: 'raises', SystemExit: 'exits', KeyboardInterrupt: 'interrupted'}.get(e.exc.cls)
        h.check('the body is executed once', 'end' in box)
        h.check('the context ends as its body', st == ending)
        restored(h, 'at the end', before, box['end'], environment(h), [k.e for k in names])
    return Task(f'environment of {n} variables, the body {ending}', f, functions=('mdpo.io.environ',))


def twice(h):
    """Nested and consecutive uses."""
    I = h.I
    before = environment(h)
    a, b = h.fresh('str', 'a'), h.fresh('str', 'b')
    name = h.fresh('str', 'name')
    I.env['dict.fork'] = True
    cm = lambda v: I.call(h.func('mdpo.io.environ'), [], {name: v})

    def outer(x):
        lib.enter_context(I, cm(b), lambda x: None)
        h.check('the inner environment gives back the value of the outer one',
                z3.Select(environment(h), name.e) == opt_dt('str')[2](a.e))
    lib.enter_context(I, cm(a), outer)
    lib.enter_context(I, cm(b), lambda x: None)
    restored(h, 'at the end', before, before, environment(h), [name.e])


def cli(tool):
    """run() of a command line tool: anything that it does may end in any way."""
    mod = f'mdpo.{tool}.__main__'
    VAR = '_MDPO_RUNNING'

    def f(h):
        I = h.I
        before = environment(h)
        seen = []

        def anything(what):
            def c(I, *a):
                seen.append(what)
                h.check('the tool works with the environment of the run',
                        z3.Select(environment(h), S(VAR)) == opt_dt('str')[2](S('true')))
                for end, exc in (('raises', ValueError), ('exits', SystemExit)):
                    if h.truth(h.fresh('bool', f'{what} {end}')):
                        raise core.PyRaise(core.ExcV(exc, (1,)))
            return c

        opts = unknown_instance(I, dict(P10.OPTS, save=('opt', 'str') if tool != 'md2po' else 'bool'), 'options')

        def parse(I, v):
            anything('parse_options')(I)
            return opts
        I.contracts[mod + '.parse_options'] = parse
        obj = VObj(I.ctx, NativeClass('Tool', {
            'extract': lambda I, o, *a, **k: (anything('extract')(I), VObj(I.ctx, NativeClass('POFile', {
                '__unicode__': lambda I, o: I.ctx.fresh('str', 'po')}), {}))[1],
            'translate': lambda I, o, *a, **k: (anything('translate')(I), I.ctx.fresh('str', 'out'))[1]}), {
            '_saved_files_changed': h.fresh('bool', 'changed'), 'pofiles': VList(I.ctx, [], T=('ref', 'POFile'))})

        def tool_(I, a, k):
            anything('constructor')(I)
            return obj
        for c in ('mdpo.md2po.Md2Po', 'mdpo.po2md.Po2Md', 'mdpo.mdpo2html.MdPo2HTML'):
            I.contracts[c] = tool_

        def combined(I, v):
            anything('combined')(I)
            return (h.fresh('bool', 'changed'),) + tuple(h.fresh(('list', 'str'), 'locations') for _ in range(3))
        I.contracts['mdpo.md2po2md.markdown_to_pofile_to_markdown'] = combined
        for kind in P10.NAMES:
            def check(I, v, kind=kind):
                anything('check of ' + kind)(I)
                return h.fresh(('list', 'str'), kind)
            I.contracts[P10.NAMES[kind][1]] = check
        I.module(mod)
        st, r = h.outcome(mod + '.run')
        h.check('the tool runs', bool(seen))
        q = h.fresh('str', 'variable').e
        h.check('every environment variable is as before the run', z3.Select(environment(h), q) == z3.Select(before, q))
    return Task(f'{tool} command line', f, functions=(mod + '.run',))


TASKS = [context(n, e) for n in (0, 1, 2, 3) for e in ('ends', 'raises', 'exits', 'interrupted')] + [
    Task('environment inside and after others', twice, functions=('mdpo.io.environ',))] + [
    cli(t) for t in ('md2po', 'po2md', 'mdpo2html', 'md2po2md')]
TRUSTED = ['os.environ is a mapping of texts; the process ends by an exception (no os._exit, no signals)']
