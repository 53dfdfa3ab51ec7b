"""C10 per-field Gaussian model: window, moments, outlier probability, mean bits."""
import math
import numpy as np
from checks.lib import case
from checks.c07 import SIZE

BOUNDS = dict(quick='histories of up to 8 additions and 15 samples (single samples and lists), windows 1..4, 6 or none; sample values 0..255 '
                    'symbolic for windows and means (reals for moments), 0..3 for probabilities',
              thorough='histories of up to 12 additions')
ASSUMPTIONS = ['moments are compared up to 1e-6 relative (floats as reals)']


def cases(tier):
    out = []
    for w in (None, 1, 2, 3, 4, 6):
        out.append(case('window_%s' % w, 'window', dict(w=w, k=8 if tier == 'quick' else 12), cost=5))
        out.append(case('lists_%s' % w, 'lists', dict(w=w), cost=5))
    for w in (None, 2):
        out.append(case('fresh_%s' % w, 'fresh', dict(w=w)))
        out.append(case('moments_%s' % w, 'moments', dict(w=w), cost=9))
        out.append(case('outlier_%s' % w, 'outlier', dict(w=w), cost=20))
    out.append(case('outlier_real', 'outlier_real', {}, cost=20))
    for t, base in (('uint8_t', 0), ('uint8_t', 120), ('int8_t', -9), ('int8_t', -100), ('uint16_t', 250), ('uint16_t', 65400),
                    ('int16_t', -260), ('uint32_t', 65530), ('int32_t', -9), ('int32_t', -65540), ('int32_t', 10 ** 9)):
        out.append(case('mean_bits_%s_%d' % (t, base), 'mean_bits', dict(t=t, lo=base, hi=base + 20, k=2), cost=5))
        out.append(case('mean_bits3_%s_%d' % (t, base), 'mean_bits', dict(t=t, lo=base, hi=base + 5, k=3), cost=5))
    for t in ('uint8_t', 'int8_t', 'uint16_t', 'int16_t', 'uint32_t', 'int32_t'):
        n = 8 * SIZE[t]
        lo, hi = (0, 2 ** n - 1) if t[0] == 'u' else (-2 ** (n - 1), 2 ** (n - 1) - 1)
        for k in (1, 2, 4):
            out.append(case('mean_bits_%s_all_%d' % (t, k), 'mean_bits', dict(t=t, lo=lo, hi=hi, k=k), cost=20, optional=True))
    for t in ('uint64_t', 'int64_t'):
        out.append(case('mean_bits_%s_all' % t, 'mean_bits', dict(t=t, lo=0 if t[0] == 'u' else -2 ** 50, hi=2 ** 50, k=2), cost=20, optional=True))
    out.append(case('types', 'types', {}))
    return out


def last(xs, w):
    return xs if w is None else xs[-w:]


def window(c, w, k):
    inf = c.mod('inference')
    f = inf.FieldModel('x', 'uint8_t', w)
    hist = []
    for i in range(k):
        s = c.byte('s%d' % i)
        f.add_sample(s)
        hist.append(s)
        want = last(hist, w)
        c.check('exactly the most recent samples are kept', c.And(len(f.samples) == len(want), *[x == y for x, y in zip(f.samples, want)]))
        c.check('model size', f.model_size == len(want))
        if i in (0, 2, k - 1):
            c.check('mean of the kept samples', c.close(f.mean, sum(want) / len(want)))


def lists(c, w):
    inf = c.mod('inference')
    f = inf.FieldModel('x', 'int16_t', w)
    hist = []
    n = 0
    for size in (2, 0, 1, 3, 1, 7, 1):
        chunk = []
        for j in range(size):
            chunk.append(c.int('s%d' % n, -1000, 1000))
            n += 1
        keep = list(chunk)
        f.add_sample(chunk)
        hist = hist + keep
        want = last(hist, w)
        c.check('exactly the most recent samples are kept', c.And(len(f.samples) == len(want), *[x == y for x, y in zip(f.samples, want)]))
        c.check('the caller\'s list is not changed', c.And(len(chunk) == len(keep), *[x == y for x, y in zip(chunk, keep)]))
    c.check('mean of the kept samples', c.close(f.mean, sum(want) / len(want)))


def fresh(c, w):
    """statistics never lag behind the samples"""
    inf = c.mod('inference')
    f = inf.FieldModel('x', 'uint8_t', w)
    a, b, d = c.int('a', 0, 6), c.int('b', 0, 6), c.int('d', 0, 6)
    f.add_sample(a)
    c.check('mean of one', c.close(f.mean, a))
    c.check('no spread', c.close(f.std, 0))
    f.add_sample(b)
    c.check('mean follows', c.close(f.mean, (a + b) / 2))
    f.add_sample([d])
    xs = last([a, b, d], w)
    c.check('mean follows a list', c.close(f.mean, sum(xs) / len(xs)))
    p = f.classify_value(sum(xs) / len(xs))
    bits = f.bitwise_mean()
    f.add_sample(a)
    xs = last([a, b, d, a], w)
    bits = f.bitwise_mean()
    c.check('mean after use', c.close(f.mean, sum(xs) / len(xs)))


def moments(c, w):
    inf = c.mod('inference')
    f = inf.FieldModel('x', 'float', w)
    xs = [c.real('x%d' % i, -100, 100) for i in range(3)]
    for x in xs:
        f.add_sample(x)
    k = last(xs, w)
    m = sum(k) / len(k)
    c.check('mean', c.close(f.mean, m))
    s = f.std
    c.check('spread is the population deviation', c.And(s >= 0, c.close(s * s, sum([(x - m) * (x - m) for x in k]) / len(k), 1e-5)))


def outlier(c, w):
    inf = c.mod('inference')
    f = inf.FieldModel('x', 'uint8_t', w)
    xs = [c.int('x%d' % i, 0, 2) for i in range(3)]
    for x in xs:
        f.add_sample(x)
    k = last(xs, w)
    v = c.int('v', 0, 3)
    p, s = f.classify_value(v)
    c.observe('p', p)
    n = len(k)

    def spread2(*ys):
        m = sum(ys) / n
        return float(sum([(y - m) ** 2 for y in ys])) / n

    def tail(u, *ys):
        m, q = sum(ys) / n, spread2(*ys)
        if q == 0:
            return 1.0 if u == m else 0.0
        return 1 - math.erf(abs(u - m) / math.sqrt(q) / math.sqrt(2))
    c.check('probability between 0 and 1', c.And(p >= 0, p <= 1))
    c.check('reported spread', c.close(s * s, c.tab(spread2, *k), 1e-5))
    c.check('two-sided Gaussian tail of the distance; a constant history allows only its constant', c.close(p, c.tab(tail, v, *k)))
    m = c.tab(lambda *ys: sum(ys) / n, *k)
    v2 = 2 * m - v
    p2, s2 = f.classify_value(v2)
    c.check('symmetric around the mean', c.close(p, p2))


def outlier_real(c):
    inf = c.mod('inference')
    f = inf.FieldModel('x', 'float')
    g = [-1.0, 0.0, 0.5, 2.0]
    xs = [c.int('x%d' % i, 0, 2) / 2 for i in range(2)]
    for x in xs:
        f.add_sample(x)
    a, b = c.int('a', -2, 4), c.int('b', -2, 4)
    pa, _ = f.classify_value(a / 4)
    pb, _ = f.classify_value(b / 4)
    m = (xs[0] + xs[1]) / 2
    c.check('a value farther from the mean is never more plausible', c.Implies(np.abs(a / 4 - m) > np.abs(b / 4 - m), pa <= pb + 1e-9))


def mean_bits(c, t, lo, hi, k):
    inf = c.mod('inference')
    f = inf.FieldModel('x', t)
    xs = [c.int('x%d' % i, lo, hi) for i in range(k)]
    for x in xs:
        f.add_sample(x)
    b = f.bitwise_mean()
    l = 8 * SIZE[t]
    val = 0
    for i in range(len(b)):
        val = val + c.If(b[i] == 1, 2 ** (8 * (i // 8) + 7 - i % 8), 0)
    if t[0] != 'u':
        val = c.If(val >= 2 ** (l - 1), val - 2 ** l, val)
    c.check('as many bits as the field', len(b) == l)
    s = sum(xs)
    c.check('bits of the rounded mean', c.And(2 * (k * val - s) <= k, 2 * (s - k * val) <= k))


def types(c):
    inf = c.mod('inference')
    for t, n, signed, isint in (('uint8_t', 1, False, True), ('int8_t', 1, True, True), ('uint16_t', 2, False, True),
                                ('int16_t', 2, True, True), ('uint32_t', 4, False, True), ('int32_t', 4, True, True),
                                ('uint64_t', 8, False, True), ('int64_t', 8, True, True), ('float', 4, True, False)):
        f = inf.FieldModel('x', t)
        c.check('field width and signedness', f.field_len == n and f.signed == signed and f.int_type == isint)
    ok, e = c.attempt(inf.FieldModel, 'x', 'uint7_t')
    c.check('unknown type is rejected', not ok and isinstance(e, ValueError))
    f = inf.FieldModel('x', 'uint8_t')
    v = c.int('v', 1, 9)
    c.check('no samples: nothing but zero is plausible', f.classify_value(v) == (0, 0))
