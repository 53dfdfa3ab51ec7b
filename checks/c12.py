"""C12 empirical distributions, entropy, Hellinger distance, typical sets."""
import math
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='data of 1..6 observations of an alphabet of 4 symbols (one dimension) and up to 3x3, 2x4, 4x2, 1x8 (two '
                    'dimensions, negative symbols included), all values symbolic; extremes of six integer types; distributions '
                    'k/n over 2..5 symbols with n = 4 and 10, up to 7 rows; entropies on a grid',
              thorough='up to 7 observations, 3x4, 6 symbols')
ASSUMPTIONS = ['floating-point results of numpy/scipy primitives on each distribution of the bounded set are tabulated exactly']


def cases(tier):
    out = []
    for n in (1, 2, 3, 4, 5, 6) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7):
        out.append(case('one_%d' % n, 'one', dict(n=n), cost=2 ** n))
    for r, n in ((1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (2, 4), (5, 1), (4, 2), (3, 3), (1, 8)) if tier == 'quick' else \
            ((1, 1), (1, 4), (2, 2), (3, 2), (3, 3), (2, 5), (3, 4), (5, 2), (1, 9), (6, 1), (4, 3)):
        for lo in (0, -1):
            out.append(case('two_%dx%d_%d' % (r, n, lo), 'two', dict(r=r, n=n, lo=lo, hi=lo + (1 if r * n > 4 else 2)), cost=2 ** (r * n)))
    for dt in ('uint8', 'int8', 'int16', 'uint16', 'int32', 'bool'):
        for r in (0, 1, 2):
            out.append(case('dtype_%s_%d' % (dt, r), 'dtypes', dict(dt=dt, r=r), cost=10))
    out.append(case('gap', 'gap', {}, cost=20))
    out.append(case('kinds', 'kinds', {}))
    out.append(case('known_alphabet', 'known', dict(n=4)))
    for k in (2, 3, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 6):
        out.append(case('entropy_%d' % k, 'ent', dict(k=k), cost=20))
        out.append(case('self_distance_%d' % k, 'self_distance', dict(k=k), cost=20))
        out.append(case('distance_%d' % k, 'distance', dict(k=k), cost=40))
    for r in (1, 2, 3, 4, 7):
        out.append(case('entropy_rows_%d' % r, 'ent_rows', dict(r=r)))
        out.append(case('distance_rows_%d' % r, 'distance_rows', dict(r=r), cost=20))
    out.append(case('entropy_learned', 'ent_learned', {}, cost=20))
    out.append(case('typical', 'typical', {}))
    out.append(case('typical_pmf', 'typical_pmf', {}))
    return out


def count(c, xs, v):
    return sum([c.b2i(x == v) for x in xs])


def one(c, n):
    it = c.mod('utils.information_theory')
    x = c.ints('x', n, -1, 2)
    p, al = it.prob_with_alphabet(x)
    xs = [x[i] for i in range(n)]
    c.check('as many probabilities as symbols', len(p) == len(al))
    c.check('alphabet is increasing', all([al[i] < al[i + 1] for i in range(len(al) - 1)]))
    c.check('alphabet has every observed symbol', c.And(*[c.Or(*[v == a for a in al]) for v in xs]))
    for i, a in enumerate(al):
        k = count(c, xs, a)
        c.check('only observed symbols', k >= 1)
        c.check('probability is the relative frequency', c.close(p[i], k / n))
    q = it.prob(x)
    c.check('prob is prob_with_alphabet without the alphabet', c.close(q, p))


def two(c, r, n, lo, hi):
    it = c.mod('utils.information_theory')
    x = c.ints('x', r * n, lo, hi).reshape(r, n)
    p, al = it.prob_with_alphabet(x)
    xs = [x[i, j] for i in range(r) for j in range(n)]
    c.check('one row per dimension, one column per symbol', p.shape == (r, len(al)))
    c.check('alphabet is increasing', all([al[i] < al[i + 1] for i in range(len(al) - 1)]))
    c.check('alphabet is shared by all dimensions', c.And(*[c.Or(*[v == a for a in al]) for v in xs]))
    for j, a in enumerate(al):
        c.check('only observed symbols', count(c, xs, a) >= 1)
        for i in range(r):
            c.check('probability is the relative frequency in its row', c.close(p[i, j], count(c, [x[i, k] for k in range(n)], a) / n))
    c.check('prob is prob_with_alphabet without the alphabet', c.close(it.prob(x), p))


def known(c, n):
    """with a known alphabet, symbols that were not observed have probability zero"""
    it = c.mod('utils.information_theory')
    x = c.bits('x', 2 * n).reshape(2, n)
    p, al = it.prob_with_alphabet(x, alphabet=(0, 1, 2))
    c.check('the given alphabet', list(al) == [0, 1, 2] and p.shape == (2, 3))
    q, al1 = it.prob_with_alphabet(x[0], alphabet=(0, 1, 2))
    c.check('the given alphabet', list(al1) == [0, 1, 2] and q.shape == (3,))
    for i in range(2):
        s = sum([x[i, j] for j in range(n)])
        c.check('frequencies', c.And(c.close(p[i, 1], s / n), c.close(p[i, 0], 1 - s / n), p[i, 2] == 0))
    c.check('frequencies of one dimension', c.close(q, p[0]))
    c.check('prob is prob_with_alphabet without the alphabet', c.close(it.prob(x, alphabet=(0, 1, 2)), p))


def gap(c):
    """alphabets that are not 0..k-1, and other integer types"""
    it = c.mod('utils.information_theory')
    b = c.bits('b', 4)
    x = (b * 7 + 3).reshape(2, 2)
    p, al = it.prob_with_alphabet(x)
    s = sum([b[i] for i in range(4)])
    want = [3] if c.And(s == 0) else [10] if c.And(s == 4) else [3, 10]
    c.check('alphabet', list(al) == want)
    for i in range(2):
        for j, a in enumerate(want):
            c.check('frequency', c.close(p[i, j], count(c, [x[i, 0], x[i, 1]], a) / 2))
    y = c.bits('y', 3, np.uint8)
    q, al = it.prob_with_alphabet(y)
    t = sum([int(y[i]) for i in range(3)])
    c.check('bytes work too', len(al) == len(q) and 1 <= len(al) <= 2)
    c.check('frequency of the largest symbol', c.close(q[len(q) - 1], c.If(t == 0, 3, t) / 3))


def dtypes(c, dt, r):
    """symbols at the ends of an integer type"""
    it = c.mod('utils.information_theory')
    d = np.dtype(dt)
    sym = [False, True] if d.kind == 'b' else [np.iinfo(d).min, 5, np.iinfo(d).max]
    n = 3 if r < 2 else 2
    k = [c.int('k%d' % i, 0, len(sym) - 1) for i in range(max(r, 1) * n)]
    raw = [c.tab(lambda i: int(sym[i]), x) for x in k]
    x = np.array(raw).astype(d)
    x = x.reshape(r, n) if r else x
    p, al = it.prob_with_alphabet(x)
    seen = [v for i, v in enumerate(sym) if c.Or(*[q == i for q in k])]
    c.check('alphabet is the observed symbols in order', [int(v) for v in al] == [int(v) for v in seen])
    rows = [k[i * n:i * n + n] for i in range(max(r, 1))]
    for i, row in enumerate(rows):
        for j, v in enumerate(seen):
            got = p[i, j] if r else p[j]
            c.check('relative frequency', c.close(got, sum([c.b2i(q == sym.index(v)) for q in row]) / n))


def kinds(c):
    it = c.mod('utils.information_theory')
    ex = c.mod('utils.custom_exceptions')
    for v in ([0.5, 1.0], [[0.5, 1.0]], [1.0], [[2.0]], [0.0] * 9, [[0.0, 1.0]] * 3, [[1.0]] * 4):
        ok, e = c.attempt(it.prob, np.array(v))
        c.check('floats are rejected', not ok and isinstance(e, ex.UnsupportedDtype))
        ok, e = c.attempt(it.prob_with_alphabet, np.array(v), [0, 1, 2])
        c.check('floats are rejected with a known alphabet', not ok and isinstance(e, ex.UnsupportedDtype))
    ok, e = c.attempt(it.prob, np.zeros((2, 2, 2), dtype=int))
    c.check('three dimensions are rejected', not ok and isinstance(e, ValueError))
    ok, e = c.attempt(it.entropy, np.zeros((2, 2, 2)))
    c.check('three dimensions are rejected', not ok and isinstance(e, ValueError))
    ok, e = c.attempt(it.hellinger, np.array([0.5, 0.5]), np.array([[0.5, 0.5]]))
    c.check('mixed dimensions are rejected', not ok and isinstance(e, ValueError))
    n = c.int('n', -3, 3)
    ok, e = c.attempt(it.typical_set_cardinality, n, None, 0.5)
    c.check('lengths must be positive', c.Iff(ok, n > 0))
    m = c.int('m', -3, 3)
    ok, e = c.attempt(it.typical_set_cardinality, 2, None, 0.5, m)
    c.check('tolerance must be positive', c.Iff(ok, m > 0))
    ok, e = c.attempt(it.typical_set_cardinality, 2)
    c.check('distribution or entropy is needed', not ok and isinstance(e, ValueError))


def simplex(k, n):
    if k == 1:
        return [[n]]
    return [[i] + r for i in range(n + 1) for r in simplex(k - 1, n - i)]


def dist(c, name, k, n):
    """every distribution of k symbols with denominator n"""
    return c.family(name, [[x / n for x in r] for r in simplex(k, n)])


def ent(c, k):
    it = c.mod('utils.information_theory')
    ps = dist(c, 'p', k, 10 if k < 5 else 4)
    h = it.entropy(np.array(ps))

    def want(*a):
        return -sum([x * math.log2(x) for x in a if x > 0]) + 0.0
    w = c.tab(want, *ps)
    c.check('entropy in bits', c.close(h, w))
    c.check('between zero and the logarithm of the alphabet', c.And(h >= -1e-9, h <= math.log2(k) + 1e-9))
    h3 = it.entropy(np.array(ps), base=3)
    c.check('other bases', c.close(h3 * math.log2(3), w))
    hr = it.entropy(np.array([ps[(i + 1) % k] for i in range(k)]))
    c.check('the order of symbols does not matter', c.close(h, hr))


def ent_rows(c, r):
    it = c.mod('utils.information_theory')
    xs = [c.int('a%d' % i, 0, 8) for i in range(r)]
    p = np.array([[a / 8, 1 - a / 8] for a in xs])
    h = it.entropy(p)
    c.check('one entropy per row', h.shape == (r,))

    def H(x):
        return 0.0 if x in (0, 8) else -(x / 8 * math.log2(x / 8) + (1 - x / 8) * math.log2(1 - x / 8))
    c.check('row entropies', c.And(*[c.close(h[i], c.tab(H, xs[i])) for i in range(r)]))
    h3 = it.entropy(p, base=4)
    c.check('row entropies in another base', c.And(h3.shape == (r,), *[c.close(h3[i] * 2, c.tab(H, xs[i])) for i in range(r)]))


def ent_learned(c):
    """a row is certain exactly when its observations agree"""
    it = c.mod('utils.information_theory')
    x = c.bits('x', 6).reshape(2, 3)
    h = it.entropy(it.prob(x))
    for i in range(2):
        s = x[i, 0] + x[i, 1] + x[i, 2]
        c.check('no entropy exactly when constant', c.Iff(h[i] < 1e-6, c.Or(s == 0, s == 3)))
        c.check('entropy of a mixed row', c.Implies(c.And(s > 0, s < 3), c.close(h[i], 0.9182958340544896)))


def self_distance(c, k):
    it = c.mod('utils.information_theory')
    p = np.array(dist(c, 'p', k, 10 if k < 5 else 5))
    d = it.hellinger(p, p)
    c.check('no distance to itself', c.And(d >= 0, d <= 1e-6))
    d = it.hellinger(np.array([p, p]), np.array([p, p]))
    c.check('no distance to itself, by rows', c.And(d[0] >= 0, d[0] <= 1e-6, d[1] >= 0, d[1] <= 1e-6))


def distance(c, k):
    it = c.mod('utils.information_theory')
    n, m = (20, 12) if k == 2 else (5, 5) if k == 3 else (3, 3) if k == 4 else (2, 2)
    ps, qs = dist(c, 'p', k, n), dist(c, 'q', k, m)
    p, q = np.array(ps), np.array(qs)
    d = it.hellinger(p, q)

    def want(*a):
        # the defining norm: Euclidean distance of the square roots
        return math.sqrt(sum([(math.sqrt(x) - math.sqrt(y)) ** 2 for x, y in zip(a[:k], a[k:])]) / 2)
    w = c.tab(want, *(ps + qs))
    c.check('Hellinger distance', c.close(d, w, 1e-6))
    c.check('within [0, 1]', c.And(d >= 0, d <= 1))
    c.check('symmetric', c.close(it.hellinger(q, p), d))
    disjoint = c.And(*[c.Or(x == 0, y == 0) for x, y in zip(ps, qs)])
    c.check('largest exactly for disjoint supports', c.Iff(disjoint, d >= 1 - 1e-9))


def distance_rows(c, r):
    it = c.mod('utils.information_theory')
    a = [c.int('a%d' % i, 0, 8) for i in range(r)]
    b = [c.int('b%d' % i, 0, 4) for i in range(r)]
    p = np.array([[x / 8, 1 - x / 8] for x in a])
    q = np.array([[x / 4, 1 - x / 4] for x in b])
    d = it.hellinger(p, q)
    c.check('one distance per row', d.shape == (r,))

    def want(x, y):
        return math.sqrt(((math.sqrt(x / 8) - math.sqrt(y / 4)) ** 2 + (math.sqrt(1 - x / 8) - math.sqrt(1 - y / 4)) ** 2) / 2)
    c.check('row distances', c.And(*[c.close(d[i], c.tab(want, a[i], b[i]), 1e-6) for i in range(r)]))
    c.check('symmetric', c.close(it.hellinger(q, p), d))


def typical(c):
    it = c.mod('utils.information_theory')
    n = c.int('n', 1, 12)
    e = c.int('e', 0, 8) / 8
    lb, ub = it.typical_set_cardinality(n, ent=e)
    c.check('bounds are ordered', c.And(lb > 0, lb <= ub))

    def up(i, j):
        return 2.0 ** (i * (j / 8 + 1e-5))

    def low(i, j):
        return (1 - 1e-5) * 2.0 ** (i * (j / 8 - 1e-5))
    j = c.int('e', 0, 8)
    c.check('upper bound', c.close(ub, c.tab(up, n, j)))
    c.check('lower bound', c.close(lb, c.tab(low, n, j)))
    lb2, ub2 = it.typical_set_cardinality(n, ent=e, eps=0.25)
    c.check('a wider tolerance widens the bounds', c.And(lb2 <= lb, ub2 >= ub))


def typical_pmf(c):
    it = c.mod('utils.information_theory')
    n = c.int('n', 1, 9)
    a = c.int('a', 0, 8)
    p = np.array([a / 8, 1 - a / 8])
    lb, ub = it.typical_set_cardinality(n, p)

    def H(x):
        return 0.0 if x in (0, 8) else -(x / 8 * math.log2(x / 8) + (1 - x / 8) * math.log2(1 - x / 8))
    c.check('entropy of the distribution is used', c.close(ub, c.tab(lambda i, x: 2.0 ** (i * (H(x) + 1e-5)), n, a)))
    c.check('lower bound', c.close(lb, c.tab(lambda i, x: (1 - 1e-5) * 2.0 ** (i * (H(x) - 1e-5)), n, a)))
    lb3, ub3 = it.typical_set_cardinality(n, p, 0.5)
    c.check('a given entropy wins over the distribution', c.close(ub3, c.tab(lambda i: 2.0 ** (i * (0.5 + 1e-5)), n)))
