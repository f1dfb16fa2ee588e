"""P17: the environment after runs."""
import subprocess

from common import *
from mdpo.io import environ

RULE = 'a case is non trivial if it runs a command or sets variables'
VAR = '_MDPO_RUNNING'


class Boom(BaseException):
    pass


ENDS = {'ends': None, 'ValueError': ValueError('x'), 'KeyError': KeyError('k'), 'SystemExit': SystemExit(3),
        'KeyboardInterrupt': KeyboardInterrupt(), 'GeneratorExit': GeneratorExit(), 'StopIteration': StopIteration(),
        'BaseException': Boom()}


def snapshot():
    return dict(os.environ)


def reset(want):
    for k in set(os.environ) - set(want):
        del os.environ[k]
    os.environ.update(want)


def run_context(case):
    saved = snapshot()
    try:
        os.environ.update(case['given'])
        for k in case['absent']:
            os.environ.pop(k, None)
        before = snapshot()
        nested(case, list(case['levels']), before)
        want = dict(before)
        # what the bodies did to the variables that no level sets
        mine = set().union(*[set(l['set']) for l in case['levels']])
        for l in case['levels']:
            for k, v in l['body'].items():
                if k not in mine:
                    want[k] = v
                    if v is None:
                        want.pop(k)
        equal(diff(snapshot(), want), {}, 'variables that differ at the end (got, want)')
    finally:
        reset(saved)


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def nested(case, levels, before):
    if not levels:
        return
    l = levels[0]
    start = snapshot()
    exc = ENDS[l['end']]
    try:
        with environ(**l['set']):
            now = snapshot()
            equal(diff(now, dict(start, **l['set'])), {}, 'variables that differ during the run (got, want)')
            nested(case, levels[1:], before)
            for k, v in l['body'].items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            if exc is not None:
                raise exc
    except BaseException as e:
        if isinstance(e, Bad):
            raise
        if l['end'] == 'StopIteration' and isinstance(e, RuntimeError):
            pass
        else:
            expect(e is exc, 'the environment ends with the error of its body', e)
    else:
        expect(exc is None, 'errors are not hidden')
    for k in l['set']:
        equal(os.environ.get(k), start.get(k), f'value of {k} after its environment')


HANDLER = '''import json, os
def handler(*args):
    with open("seen.json", "a") as f:
        f.write(json.dumps(dict(os.environ)) + "\\n")
%s
'''


def tool(name):
    import importlib
    return importlib.import_module(f'mdpo.{name}.__main__').run


PO = '#\nmsgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\nmsgid "Hello"\nmsgstr "Hola"\n\n' \
     '#, fuzzy\nmsgid "Bye"\nmsgstr ""\n\n#~ msgid "Old"\n#~ msgstr "Viejo"\n'


def run_cli(case):
    saved = snapshot()
    with scratch():
        try:
            write('in.md', case.get('md', 'Hello\n\nBye *now* <b>x</b>\n'))
            write('in.html', '<html><body><p>Hello</p></body></html>')
            write('t.po', PO)
            write('bad.po', 'msgid "x\nfoo')
            write('handlers.py', HANDLER % {'': '', 'raise': '    raise RuntimeError("handler")',
                                            'exit': '    raise SystemExit(9)',
                                            'env': '    os.environ["OTHER_VAR"] = "changed"'}[case.get('handler', '')])
            os.environ.pop('OTHER_VAR', None)
            if case['before'] is None:
                os.environ.pop(VAR, None)
            else:
                os.environ[VAR] = case['before']
            os.environ['KEPT'] = 'as it was'
            before = snapshot()
            run = tool(case['tool'])
            for _ in range(case.get('times', 1)):
                try:
                    with capture():
                        run(list(case['args']))
                except (Exception, SystemExit):
                    pass
                want = dict(before)
                if 'OTHER_VAR' in os.environ and case.get('handler') == 'env':
                    want['OTHER_VAR'] = 'changed'
                equal(diff(snapshot(), want), {}, f'variables that differ after {case["tool"]} {case["args"]} (got, want)')
            if os.path.exists('seen.json'):
                for line in read('seen.json').splitlines():
                    seen = json.loads(line)
                    equal(seen.get(VAR), 'true', 'variable of the run during it')
                    seen.pop('OTHER_VAR', None)
                    equal(diff({k: v for k, v in seen.items() if k != VAR},
                               {k: v for k, v in before.items() if k != VAR}), {}, 'other variables during the run')
            import sys
            sys.modules.pop('handlers', None)
        finally:
            reset(saved)


def run(case):
    (run_context if case['kind'] == 'context' else run_cli)(case)


ARGS = {
    'md2po': [['in.md', '-q'], ['in.md'], ['Hello'], ['in.md', '-p', 't.po', '-s'], ['in.md', '-p', 't.po', '-s', '-q', '-r'],
              ['in.md', '-s'], ['missing/*.md', '-q'], ['in.md', '-p', 't.po', '--check', '-s'], ['--bad-option'], [],
              ['in.md', '-p', 'bad.po'], ['in.md', '-w', 'x'], ['in.md', '--command-alias', 'a:nothing'],
              ['in.md', '--command-alias', 'a'], ['in.md', '-p', 't.po', '--no-obsolete', '--no-fuzzy'], ['--version'],
              ['--help'], ['in.md', '-d', 'x'], ['in.md', '-p', 't.po', '--no-empty-msgstr'],
              ['in.md', '-e', 'text: handlers.py::handler'], ['in.md', '-e', 'text: handlers.py::none'],
              ['in.md', '-e', 'nothing'], ['in.md', '--po-encoding', 'nope', '-p', 't.po'],
              ['in.md', '--md-encoding', 'nope']],
    'po2md': [['in.md', '-p', 't.po', '-q'], ['in.md', '-p', 't.po'], ['Hello', '-p', 't.po'], ['in.md'], [],
              ['in.md', '-p', 't.po', '-s', 'out.md'], ['in.md', '-p', 't.po', '-s', 'out.md', '--check'],
              ['in.md', '-p', 'bad.po'], ['in.md', '-p', 'missing*.po'], ['in.md', '-p', 't.po', '-w', 'no'],
              ['in.md', '-p', 't.po', '--no-obsolete', '--no-fuzzy', '--no-empty-msgstr'], ['--version'], ['--help'],
              ['in.md', '-p', 't.po', '-e', 'text: handlers.py::handler'], ['in.md', '-p', 't.po', '--md-encoding', 'x'],
              ['in.md', '-p', 't.po', '-s', 'no/such/../dir/out.md']],
    'mdpo2html': [['in.html', '-p', 't.po', '-q'], ['in.html', '-p', 't.po'], ['<p>Hello</p>', '-p', 't.po'],
                  ['in.html'], [], ['in.html', '-p', 't.po', '-s', 'out.html'], ['in.html', '-p', 'bad.po'],
                  ['in.html', '-p', 't.po', '-s', 'out.html', '--check'], ['--version'], ['--help'],
                  ['in.html', '-p', 't.po', '--no-obsolete', '--no-fuzzy', '--no-empty-msgstr'],
                  ['in.html', '-p', 't.po', '--command-alias', 'x:none']],
    'md2po2md': [['in.md', '-l', 'es', 'fr', '-o', 'loc/{lang}', '-q'], ['in.md', '-l', 'es', '-o', 'loc'],
                 ['none*.md', '-l', 'es', '-o', 'loc/{lang}'], ['in.md', '-o', 'loc/{lang}'], [], ['--version'],
                 ['in.md', '-l', 'es', '-o', 'loc/{lang}', '--check'], ['in.md', '-l', 'es', '-o', '{lang}/{other}'],
                 ['in.md', '-l', 'es', '-o', 'loc/{lang}', '--no-obsolete', '--no-fuzzy'], ['--help'],
                 ['in.md', '-l', 'es', '-o', 'loc/{lang}', '--md-encoding', 'nope'],
                 ['in.md', '-l', 'es', '-o', 'loc/{lang}', '--po-wrapwidth', 'nope']],
}
BEFORE = [None, '', 'x', 'true', 'false']
L = lambda s, e='ends', b=None: dict(set=s, end=e, body=b or {})
CORPUS = [
    *[dict(kind='context', given=g, absent=['ABSENT'], levels=[L(s, e, b)])
      for e in ENDS for g, s in (({}, {'ABSENT': 'v'}), ({'A': 'old'}, {'A': 'new'}), ({'A': ''}, {'A': 'new'}),
                                 ({'A': 'old'}, {'A': ''}), ({'A': 'same'}, {'A': 'same'}), ({'A': ''}, {'A': ''}),
                                 ({'A': '1', 'B': '2'}, {'A': 'x', 'B': 'y', 'ABSENT': 'z'}), ({}, {}))
      for b in ({}, {'A': 'body'}, {'A': None, 'ABSENT': None}, {'OTHER': 'kept'}, {'ABSENT': 'x'})],
    dict(kind='context', given={'A': '0'}, absent=['ABSENT'],
         levels=[L({'A': '1', 'ABSENT': '1'}), L({'A': '2', 'ABSENT': '2'}, 'ValueError'), L({'A': '3'}, 'SystemExit')]),
    *[dict(kind='cli', tool=t, args=a, before=b, times=2) for t in ARGS for a in ARGS[t] for b in BEFORE[:4]],
    *[dict(kind='cli', tool=t, args=a, before=b, handler=x)
      for t in ('md2po', 'po2md') for a in ARGS[t] if '-e' in a for b in BEFORE for x in ('', 'raise', 'exit', 'env')],
]


def gen(rng, k):
    if rng.random() < .6:
        names = ['A', 'B', 'ABSENT', 'MISSING', VAR, 'long_name', 'ñ']
        vals = ['', '0', 'true', 'x y', 'é', 'v=w']
        levels = []
        for _ in range(rng.randint(1, 4)):
            levels.append(dict(set={n: rng.choice(vals) for n in rng.sample(names, rng.randint(0, 5))},
                               end=rng.choice(list(ENDS)),
                               body={n: rng.choice(vals + [None]) for n in rng.sample(names, rng.randint(0, 3))}))
        given = {n: rng.choice(vals) for n in rng.sample(names, rng.randint(0, 4)) if n not in ('ABSENT', 'MISSING')}
        # an inner body may only change variables that some level around it sets, or no level does
        allset = set().union(*[set(l['set']) for l in levels])
        seen = set()
        for l in levels:
            seen |= set(l['set'])
            l['body'] = {k: v for k, v in l['body'].items() if k in seen or k not in allset}
        # the last change wins only if levels change different variables
        used = set()
        for l in levels:
            l['body'] = {k: v for k, v in l['body'].items() if k in seen or k not in used}
            used |= set(l['body'])
        return dict(kind='context', given=given, absent=['ABSENT', 'MISSING'], levels=levels)
    t = rng.choice(list(ARGS))
    return dict(kind='cli', tool=t, args=rng.choice(ARGS[t]), before=rng.choice(BEFORE),
                handler=rng.choice(['', 'raise', 'exit', 'env']))


if __name__ == '__main__':
    main(CORPUS, gen, run, RULE)
