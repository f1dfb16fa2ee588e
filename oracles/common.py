"""Witness search on the real code: cases against reference semantics written from the properties.

A failing case is replayed with:  <oracle>.py --replay FILE
"""
import argparse
import contextlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout('the case did not end in time')


class Bad(Exception):
    """The property does not hold for the case."""


def expect(cond, msg, *a):
    if not cond:
        raise Bad(msg + ''.join('\n  ' + repr(x) for x in a))


def equal(got, want, what):
    if got != want:
        raise Bad(f'{what}:\n  got  {got!r}\n  want {want!r}')


@contextlib.contextmanager
def scratch():
    """Temporary working directory."""
    cwd = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix='verif-'))
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


class _Tty(io.StringIO):
    def isatty(self):
        return True


@contextlib.contextmanager
def capture():
    out, err, stdin = io.StringIO(), io.StringIO(), sys.stdin
    sys.stdin = _Tty()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err
    finally:
        sys.stdin = stdin


def cli(run, args):
    """(result or None, exit code, stdout, stderr) of a run() of a command line tool."""
    with capture() as (out, err):
        code = None
        try:
            r = run(args)
            code = r[1] if isinstance(r, tuple) else r
        except SystemExit as e:
            r, code = None, e.code
    return r, code, out.getvalue(), err.getvalue()


def write(path, text, encoding='utf-8'):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, 'w', encoding=encoding) as f:
        f.write(text)


def read(path, encoding='utf-8'):
    with open(path, encoding=encoding) as f:
        return f.read()


def run_case(run, case, seconds=20):
    """None if the property holds for the case, else a description."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    cwd = os.getcwd()
    try:
        run(case)
        return None
    except Bad as e:
        return str(e)
    except CaseTimeout as e:
        return str(e)
    except Exception:
        return 'unexpected error:\n' + traceback.format_exc()[-1500:]
    except SystemExit as e:
        return f'unexpected exit ({e.code})'
    finally:
        signal.alarm(0)
        os.chdir(cwd)


def main(corpus, gen, run, rule, nontrivial=lambda c: True, shrink=None):
    """corpus: fixed cases first; gen(rng, k): random cases; run(case) raises Bad."""
    ap = argparse.ArgumentParser()
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--replay')
    ap.add_argument('--max', type=int, default=0)
    a = ap.parse_args()
    if a.replay:
        case = json.load(open(a.replay))['violation']['case']
        r = run_case(run, case, 60)
        print('case:', json.dumps(case)[:3000])
        print('VIOLATED: ' + r if r else 'the property holds for this case')
        sys.exit(1 if r else 0)
    rng = random.Random(a.seed)
    t0 = time.time()
    n = 0
    seen = set()
    samples = []
    violation = None
    it = iter(list(corpus))
    k = 0
    nc = len(corpus)
    while time.time() - t0 < a.budget or n < nc:
        case = next(it, None)
        if case is None:
            if gen is None:
                break
            case = gen(rng, k)
            k += 1
        n += 1
        if n == nc + 1 or n == nc + 50 or n == 1:
            samples.append(case)
        if nontrivial(case):
            seen.add(json.dumps(case, sort_keys=True))
        r = run_case(run, case)
        if r is not None:
            if shrink:
                case, r = minimize(run, case, r, shrink, time.time() + 20)
            violation = dict(case=case, what=r)
            break
        if a.max and n >= a.max:
            break
    print(json.dumps(dict(evaluations=n, distinct=len(seen), rule=rule,
                          samples=[json.dumps(s)[:1500] for s in samples], violation=violation)))


def minimize(run, case, r, shrink, until):
    again = True
    while again and time.time() < until:
        again = False
        for c in shrink(case):
            if time.time() > until:
                break
            q = run_case(run, c)
            if q is not None:
                case, r, again = c, q, True
                break
    return case, r


def lines_shrink(key):
    """Drop pieces of a list of pieces stored under a key."""
    def f(case):
        ps = case[key]
        for i in range(len(ps)):
            yield dict(case, **{key: ps[:i] + ps[i + 1:]})
    return f
