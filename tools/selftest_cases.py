"""Small functions with the operations that mdpo uses; run by selftest.py in CPython and in the interpreter of pyvc."""
import os
import re


def s_slice(t, i, j):
    return [t[i:], t[:j], t[i:j], t[-1:], t[:-1]]


def s_index(t, i):
    return t[i]


def s_find(t, u):
    return [t.find(u), t.rfind(u), u in t, t.count(u), t.startswith(u), t.endswith(u)]


def s_strip(t):
    return [t.strip(), t.lstrip(), t.rstrip(), t.strip('-* '), t.lstrip('\n'), t.rstrip('ab')]


def s_split(t, u):
    return [t.split(u), t.split(u, maxsplit=1), t.split(u, 1)[0]]


def s_rsplit(t):
    return t.rsplit('.', 1)


def s_partition(t, u):
    return [t.partition(u), t.rpartition(u)]


def s_lines(t):
    return [t.splitlines(), t.split('\n')]


def s_split_blank(t):
    return t.split()


def s_replace(t, u, v):
    return [t.replace(u, v), t.replace(u, v, 1)]


def s_case(t):
    return [t.lower(), t.upper()]


def s_pred(t):
    return [t.isdigit(), t.isspace(), bool(t), not t, len(t), t == '', t != 'a']


def s_join(t, u):
    return [u.join([t, u, t]), u.join([]), u.join([t]), ''.join(x for x in (t, u))]


def s_format(t, n):
    return [f'{t}:{n}', f'{t!r}', '%s-%s' % (t, n), '{}{}'.format(t, n), str(n), f'{n:d}' if n >= 0 else '']


def s_compare(t, u):
    return [t < u, t <= u, t > u, t == u, min(t, u), max(t, u), (t, 1) < (u, 0)]


def s_mul(t, n):
    return [t * n, n * 'ab', t + u if (u := t) else '']


def s_iter(t):
    return [c for c in t if c != ' ']


def s_enum(t):
    r = []
    for i, c in enumerate(t):
        if c == '\n':
            continue
        if i > 5:
            break
        r.append((i, c))
    else:
        r.append('end')
    return r


def s_rindex(t, u):
    return t.index(u)


def s_remove(t):
    return [t.removeprefix('ab'), t.removesuffix('b')]


def s_ord(t):
    return [ord(c) for c in t] + [chr(97 + len(t))]


def s_int(t):
    return int(t)


def s_runs(t, c):
    best, run = 0, 0
    for x in t:
        run = run + 1 if x == c else 0
        best = max(best, run)
    return best


def n_arith(a, b):
    return [a + b, a - b, a * b, -a, abs(a), a < b, a == b, min(a, b), max(a, b), a // 3, a % 3]


def n_negative(a):
    return [a // -3, a % -3]


def n_div(a, b):
    return [a // b, a % b, divmod(a, b)]


def n_bool(a, b):
    return [a and b, a or b, not a, bool(a), int(a > b), (a > b) + (b > a), a if a else b, a < b < 10]


def n_range(a, b):
    return [list(range(a)), list(range(a, b)), list(range(b, a, -1)), sum(range(a)), len(range(a, b))]


def l_ops(x, v):
    y = x[:]
    y.append(v)
    y.insert(0, v)
    y.extend([1, 2])
    y += [3]
    z = y.pop()
    w = y.pop(0)
    return [x, y, z, w, len(y), v in y, y.index(v), y[-1], y[1:3], y[::-1], y.count(v)]


def l_pop(x):
    return x.pop()


def l_remove(x, v):
    x.remove(v)
    return x


def l_del(x, i):
    del x[i]
    return x


def l_set(x, i, v):
    x[i] = v
    return x


def l_sort(x):
    return [sorted(x), sorted(x, reverse=True), sorted(x, key=lambda v: -v)]


def l_any(x, v):
    return [any(y == v for y in x), all(y > v for y in x), sum(x), [y for y in x if y > v], list(map(str, x))]


def l_min(x):
    return [min(x), max(x)]


def l_unpack(x):
    a, *b = x
    return [a, b, *x]


def l_alias(x):
    y = x
    y.append(9)
    z = list(x)
    z.append(10)
    return [x, y, z, x is y, x == z]


def l_iadd(x):
    y = x
    y += [7]
    return [x, y]


def l_zip(x, y):
    return [list(zip(x, y)), [(i, v) for i, v in enumerate(x, 1)], list(reversed(x))]


def l_modify(x):
    r = []
    for v in x:
        r.append(v)
        if v == 1:
            x.append(5)
    return [r, x]


def d_ops(d, k, v):
    e = dict(d)
    e[k] = v
    f = {**d, 'z': v}
    r = [e.get(k), d.get(k), d.get(k, 'no'), k in d, len(e), list(e), list(e.values()), list(e.items()), f, e == d]
    e.pop(k)
    r += [list(e), e.setdefault(k, 'set'), list(e), {x: y for y, x in e.items()}]
    return r


def d_get(d, k):
    return d[k]


def d_del(d, k):
    del d[k]
    return list(d)


def d_pop(d, k):
    return [d.pop(k, None), list(d)]


def d_update(d):
    e = {}
    e.update(d)
    e.update(a='x')
    return [e, list(e.items()), bool(e), sorted(e)]


def d_iter(d):
    r = []
    for k, v in d.items():
        r.append(k + '=' + v)
    return r


def t_set(x, y):
    a, b = set(x), set(y)
    return [sorted(a | b), sorted(a & b), sorted(a - b), a == b, a <= b, 1 in a, len(a), sorted(a ^ b)]


def t_frozen(x):
    s = frozenset(x)
    return [1 in s, len(s), s == set(x)]


class Base:
    kind = 'base'

    def __init__(self, v, w=2):
        self.v, self.w = v, w

    def name(self):
        return self.kind + ':' + self.own()

    def own(self):
        return 'b'

    @property
    def double(self):
        return self.v * 2

    @classmethod
    def make(cls, v):
        return cls(v)

    @staticmethod
    def const():
        return 'c'


class Derived(Base):
    kind = 'derived'

    def __init__(self, v, **k):
        super().__init__(v, **k)
        self.more = k

    def own(self):
        return 'd' + super().own()

    def __eq__(self, other):
        return self.v == other.v


def c_class(v):
    a, b, c = Base(v), Derived(v, w=3), Derived.make(v)
    a.kind = 'own'
    return [a.name(), b.name(), b.w, c.w, c.more, b.more, b == c, a.double, isinstance(b, Base), isinstance(a, Derived),
            Base.const(), hasattr(a, 'x'), getattr(a, 'x', 5), Base.kind, a.kind]


def c_attr(v):
    a = Base(v)
    return a.missing


def e_try(t):
    r = []
    try:
        r.append(int(t))
    except ValueError as e:
        r.append('error')
    except (KeyError, TypeError):
        r.append('no')
    else:
        r.append('else')
    finally:
        r.append('finally')
    return r


def e_finally(n):
    r = []

    def f():
        try:
            if n > 2:
                return 'early'
            r.append('late')
        finally:
            r.append('done')
        return 'end'
    return [f(), r]


def e_raise(t):
    if t:
        raise ValueError(f'bad {t}')
    raise KeyError(t)


def e_nested(t):
    try:
        try:
            raise ValueError(t)
        except ValueError as e:
            raise KeyError('x') from e
    except KeyError as e:
        return [str(e.args[0]), type(e).__name__]


def f_default(a, b=2, *args, c=3, **kw):
    return [a, b, args, c, kw]


def f_calls(a):
    return [f_default(a), f_default(a, 1, 2, 3, d=4), f_default(*[a, 5], **{'c': 6}), f_default(b=a, a=1)]


def f_closure(n):
    k = n

    def g(x):
        nonlocal k
        k += x
        return k
    return [g(1), g(2), k, (lambda y: y + k)(3)]


def f_gen(n):
    def g():
        for i in range(3):
            if i == n:
                return
            yield i
    return [list(g()), sum(g()), [x for x in g()]]


def f_twice(a):
    def f_shared(a, acc=[]):  # noqa: B006
        acc.append(a)
        return list(acc)
    return [f_shared(a), f_shared(a)]


def w_while(n):
    r = []
    while n > 0:
        n -= 1
        if n == 3:
            continue
        if n == 1:
            break
        r.append(n)
    else:
        r.append('else')
    return [r, n]


def w_walrus(t):
    if (n := len(t)) > 2:
        return n
    return -n


def m_match(t):
    a, b = t.split('=') if t.count('=') == 1 else (t, None)
    return [a, b]


def o_path(t):
    return [os.path.basename(t), os.path.dirname(t), os.path.splitext(t), os.path.join('a', t)]


def r_sub(t):
    return [bool(re.match('a+b', t)), bool(re.search('b$', t))]


def b_bytes(t):
    return [t.encode('utf-8'), t.encode('utf-8').decode('utf-8'), len(t.encode('utf-8'))]


def i_is(v):
    return [v is None, v is not None, v == None, bool(v), v is True, isinstance(v, str), isinstance(v, (int, list)),  # noqa
            type(v).__name__]


def x_index(t, i):
    return ('a', 'b', 'c')[i] + [t, 'e', 'f'][i]


def x_chain(a, b):
    a = b = [a, b]
    a.append(1)
    c, (d, e) = 1, (2, 3)
    a[0], b[1] = b[1], a[0]
    return [a, b, c, d, e]


TEXTS = ['', 'a', 'ab', ' ab ', 'a-b', '--', 'aab\nb', '\n', 'a b  c', 'a.b.c', 'éñ€', 'aa=b', '**x** ', '\t x\n', "a'b", 'x\\y']
NUMS = [-7, -1, 0, 1, 2, 3, 5, 10]
LISTS = [[], [1], [1, 2, 3], [3, 1, 1], [2, 5, 1]]
DICTS = [{}, {'a': '1'}, {'b': '2', 'a': '1'}, {'x': 'y', 'b': 'c', 'a': ''}]


def pairs(x, y):
    return [(a, b) for a in x for b in y]


CASES = {
    's_slice': [(t, i, j) for t in TEXTS[:9] for i in (-3, -1, 0, 2) for j in (-2, 0, 1, 9)],
    's_index': pairs(TEXTS[:9], [-3, -1, 0, 1, 2]), 's_find': pairs(TEXTS, ['', 'a', 'b', ' ', '\n']),
    's_strip': [(t,) for t in TEXTS], 's_split': pairs(TEXTS, ['.', 'a', '=', '\n', 'ab']),
    's_rsplit': [(t,) for t in TEXTS], 's_partition': pairs(TEXTS, ['.', 'a']), 's_lines': [(t,) for t in TEXTS],
    's_split_blank': [(t,) for t in TEXTS], 's_replace': [(t, u, v) for t in TEXTS for u in ('a', 'ab', '  ') for v in ('', 'aa')],
    's_case': [(t,) for t in TEXTS], 's_pred': [(t,) for t in TEXTS + ['12', '0', ' 1']], 's_join': pairs(TEXTS[:5], ['', ', ']),
    's_format': pairs(TEXTS, [0, 3, -4]), 's_compare': pairs(TEXTS[:8], TEXTS[:8]), 's_mul': pairs(TEXTS[:4], [-1, 0, 1, 3]),
    's_iter': [(t,) for t in TEXTS], 's_enum': [(t,) for t in TEXTS + ['abcdefghi']], 's_rindex': pairs(TEXTS, ['a', 'b']),
    's_remove': [(t,) for t in TEXTS], 's_ord': [(t,) for t in TEXTS],
    's_int': [(t,) for t in ['0', '12', '-3', 'x', '', ' 4 ', '1.5', '+2']], 's_runs': pairs(TEXTS + ['aaabaa'], ['a', '-']),
    'n_arith': pairs(NUMS, NUMS), 'n_div': pairs(NUMS, NUMS), 'n_bool': pairs(NUMS, NUMS), 'n_range': pairs(NUMS, NUMS),
    'l_ops': pairs(LISTS, [1, 4]), 'l_pop': [(x,) for x in LISTS], 'l_remove': pairs(LISTS, [1, 2]), 'l_del': pairs(LISTS, [-1, 0, 1]),
    'l_set': [(x, i, 8) for x in LISTS for i in (-1, 0, 2)], 'l_sort': [(x,) for x in LISTS], 'l_any': pairs(LISTS, [0, 1]),
    'l_min': [(x,) for x in LISTS], 'l_unpack': [(x,) for x in LISTS], 'l_alias': [(x,) for x in LISTS], 'l_iadd': [(x,) for x in LISTS],
    'l_zip': pairs(LISTS, LISTS), 'l_modify': [(x,) for x in LISTS[:3]],
    'd_ops': [(d, k, 'v') for d in DICTS for k in ('a', 'q')], 'd_get': pairs(DICTS, ['a', 'q']), 'd_del': pairs(DICTS, ['a', 'q']),
    'd_pop': pairs(DICTS, ['a', 'q']), 'd_update': [(d,) for d in DICTS], 'd_iter': [(d,) for d in DICTS],
    't_set': pairs(LISTS, LISTS), 't_frozen': [(x,) for x in LISTS],
    'c_class': [(v,) for v in (0, 3)], 'c_attr': [(1,)], 'e_try': [(t,) for t in ('1', 'x')], 'e_finally': [(1,), (3,)],
    'e_raise': [('',), ('x',)], 'e_nested': [('x',)], 'f_calls': [(1,), ('x',)], 'f_closure': [(n,) for n in NUMS],
    'f_gen': [(n,) for n in (0, 1, 5)], 'f_twice': [(1,)], 'w_while': [(n,) for n in NUMS], 'w_walrus': [(t,) for t in TEXTS],
    'm_match': [(t,) for t in TEXTS], 'o_path': [(t,) for t in ('', 'a', 'a/b', 'a/b.c', '/x/y.tar.gz', 'a/')],
    'r_sub': [(t,) for t in TEXTS], 'b_bytes': [(t,) for t in TEXTS],
    'i_is': [(v,) for v in (None, True, False, 0, 1, '', 'x', [])], 'x_index': pairs(['t'], [-4, -1, 0, 2, 3]),
    'x_chain': pairs([1], [2]),
}
