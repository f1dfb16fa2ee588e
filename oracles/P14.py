"""P14: parsing of pairs and widths."""
import math

from common import *
import mdpo.cli as mcli
import mdpo.text as text


def pair(p):
    s = p.lstrip('\\')
    for i in range(1, len(s)):
        if s[i] == ':' and s[i - 1] != '\\':
            return s[:i].replace('\\\\:', ':', 1), s[i + 1:].lstrip()
    return None


def pairs(ps):
    out = {}
    for p in ps:
        r = pair(p)
        if r is None:
            return 'ValueError', p
        if r[0] in out:
            return 'KeyError', r[0]
        out[r[0]] = r[1]
    return 'ok', out


def outcome(f, *a):
    try:
        return 'ok', f(*a)
    except (ValueError, KeyError) as e:
        return type(e).__name__, e.args[0] if e.args else None


def width(v):
    """Expected width, None if refused."""
    try:
        x = float(v)
    except ValueError:
        return None
    if math.isnan(x):
        return None
    if x == math.inf or x < 1:
        return text.INFINITE_WRAPWIDTH
    return math.trunc(x)


class running:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        os.environ.pop('_MDPO_RUNNING', None)
        if self.on:
            os.environ['_MDPO_RUNNING'] = 'true'

    def __exit__(self, *a):
        os.environ.pop('_MDPO_RUNNING', None)


def run(case):
    if case['kind'] == 'pairs':
        ps = case['pairs']
        want = pairs(ps)
        equal(outcome(text.parse_escaped_pairs, ps), want, 'result of parse_escaped_pairs')
        for fn in (mcli.parse_command_aliases_cli_arguments, mcli.parse_metadata_cli_arguments,
                   lambda p: mcli.parse_escaped_pairs_cli_argument(p, 'V<{}>', 'K<{}>')):
            with capture() as (out, err):
                try:
                    got = 'ok', fn(ps)
                except SystemExit as e:
                    got = 'exit', e.code
            if want[0] == 'ok':
                equal(got, want, 'result of the command line function')
                equal(err.getvalue(), '', 'error output')
            else:
                equal(got, ('exit', 1), 'exit of the command line function')
                expect(str(want[1]) in err.getvalue(), 'error output names the pair or key', err.getvalue(), want)
    else:
        v = case['width']
        want = width(v)
        for fn in (text.parse_strint_0_inf, text.parse_wrapwidth_argument):
            with running(False):
                got = outcome(fn, v)
                if want is None:
                    equal(got[0], 'ValueError', f'width {v!r} refused')
                else:
                    equal(got, ('ok', want), f'width {v!r}')
                    expect(type(got[1]) is int, 'type of the width', got)
        from mdpo.md2po import Md2Po
        from mdpo.po2md import Po2Md
        with running(False), scratch():
            write('a.po', 'msgid "a"\nmsgstr "b"\n')
            for fn in (lambda: Po2Md(['a.po'], wrapwidth=v).wrapwidth,
                       lambda: Md2Po('a').extract(po_filepath='b.po', wrapwidth=v).wrapwidth):
                got = outcome(fn)
                if want is None:
                    equal(got[0], 'ValueError', f'width {v!r} refused')
                else:
                    equal(got, ('ok', want), f'width {v!r} used')
        with running(True), capture() as (out, err):
            try:
                got = 'ok', text.parse_wrapwidth_argument(v)
            except SystemExit as e:
                got = 'exit', e.code
            equal(got, ('exit', 1) if want is None else ('ok', want), f'width {v!r} on the command line')
            equal(bool(err.getvalue()), want is None, 'message')


NUMS = ['0', '1', '2', '80', '80.9', '0.5', '0.999', '1.0', '-1', '-0.0', '-5.5', 'inf', '-inf', 'nan', ' nan', 'NaN',
        'Infinity', '-Infinity', '1e3', '1e400', '-1e400', '', ' ', 'x', '10 ', ' 10', '1_0', '0x10', '1e-3', '+7',
        '12a', 'infinit', '٣', '65536', '99999999999', '1.5e1', '--1', 'None']


def gen(rng, k):
    if rng.random() < .75:
        ps = []
        for _ in range(rng.randrange(0, 6)):
            ps.append(''.join(rng.choice(['a', 'b', ':', ':', '\\', ' ', 'c', '\\:', '\\\\:', '\n', '{', '}'])
                              for _ in range(rng.randrange(0, 7))))
        if rng.random() < .4:
            ps = [rng.choice('ab') + ':' + rng.choice('xyz') for _ in range(3)]
        return dict(kind='pairs', pairs=ps)
    if rng.random() < .3:
        return dict(kind='width', width=rng.choice([0, 1, 2, -1, 80, 79.5, 0.5, -0.5, 1e30, 1000, 1.99]))
    v = rng.choice(NUMS)
    if rng.random() < .3:
        v += rng.choice(NUMS)
    return dict(kind='width', width=v)


CORPUS = [dict(kind='width', width=n) for n in NUMS] + [dict(kind='width', width=n) for n in (0, 1, -1, 0.5, 80.7)] + [
    dict(kind='pairs', pairs=p) for p in ([], ['a:b'], ['a:b', 'a:c'], ['a:b', 'x', 'a:c'], ['a:b', 'a:c', 'x'],
                                          ['a:b:c'], [':a'], ['a:'], ['\\:a:b'], ['a\\:b:c'], ['a: b '],
                                          ['a:b', 'b:b', 'c:b', 'b:d', 'q'], ['a\\\\:b:c'], ['a\\\\:b:c\\\\:d'])]

if __name__ == '__main__':
    main(CORPUS, gen, run, 'lists of pairs made of separators, backslashes and letters; texts and numbers as widths')
