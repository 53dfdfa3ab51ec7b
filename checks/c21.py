"""C21 classification scores and bit error rate."""
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='confusion matrices of 2 and 3 classes with symbolic entries 0..3 (0..1 for 3 classes), 4..8 classes with two symbolic entries among fixed ones up to 100000, label lists of 4 samples (4..6 for 3 and 4 classes), bit arrays of up to 5 bits, of 300 and 33000 bits with three symbolic ones',
              thorough='3 classes with entries 0..2, label lists of 5 samples')
ASSUMPTIONS = ['the confusion matrix itself is computed by scikit-learn, for which an independent stand-in is used']


def cases(tier):
    th = tier == 'thorough'
    out = [case('two', 'matrix', dict(k=2, hi=3), cost=20, reach=['never predicted', 'absent']),
           case('three', 'matrix', dict(k=3, hi=2 if th else 1), cost=60, reach=['never predicted', 'absent']),
           case('labels', 'labels', dict(m=5 if th else 4), cost=30)]
    for k in (4, 5, 6, 8):
        out.append(case('classes_%d' % k, 'large', dict(k=k, hi=1), cost=30))
        out.append(case('classes_%d_large' % k, 'large', dict(k=k, hi=1000), cost=30))
    out.append(case('two_large', 'large', dict(k=2, hi=100000), cost=30))
    for k, m in ((3, 4), (4, 4)):
        out.append(case('labels_%d' % k, 'labels_many', dict(k=k, m=m), cost=30))
    for t in ('int64', 'uint8', 'bool', 'float64', 'int8'):
        for n in (300, 33000):
            out.append(case('ber_%s_%d' % (t, n), 'many_errors', dict(t=t, n=n), cost=3))
    for t in ('int64', 'uint8', 'bool', 'float64'):
        out.append(case('ber_' + t, 'bit_errors', dict(t=t, n=5), cost=3))
    return out


def scores(c, m, k, res):
    cm, recall, precision, f1, acc = res
    rows = [sum([m[i][j] for j in range(k)]) for i in range(k)]
    cols = [sum([m[i][j] for i in range(k)]) for j in range(k)]
    good = sum([m[i][i] for i in range(k)])
    c.check('confusion matrix', c.And(*[cm[i, j] == m[i][j] for i in range(k) for j in range(k)]))
    c.check('accuracy', c.close(acc * sum(rows), good))
    c.check('one score per class', len(recall) == k and len(precision) == k and len(f1) == k)
    for i in range(k):
        d, r, p = m[i][i], rows[i], cols[i]
        if r == 0:
            c.reach('absent')
            if p == 0:
                c.check('precision of a class that is neither there nor predicted', precision[i] == 1)
            else:
                c.check('precision of an absent class that is predicted', precision[i] == 0)
            continue
        c.check('recall', c.close(recall[i] * r, d))
        if p == 0:
            c.reach('never predicted')
            c.check('precision of a class that is never predicted', precision[i] == 0)
            c.check('F1 of a class that is never predicted', f1[i] == 0)
            continue
        c.check('precision', c.close(precision[i] * p, d))
        c.check('F1 is the harmonic mean', c.close(f1[i] * (r + p), 2 * d))


def matrix(c, k, hi):
    pa = c.mod('utils.performance_analysis')
    m = [[c.int('m%d%d' % (i, j), 0, hi) for j in range(k)] for i in range(k)]
    c.assume(sum([sum(row) for row in m]) > 0)
    a = np.array(m)
    res = pa.stats(cm=a)
    c.check('the matrix is not changed', c.And(*[a[i, j] == m[i][j] for i in range(k) for j in range(k)]))
    scores(c, m, k, res)


def large(c, k, hi):
    """more classes, larger counts: a few entries are symbolic"""
    pa = c.mod('utils.performance_analysis')
    full = c.choice('every class has hits', [0, 1])
    m = [[(3 * i + 5 * j) % 4 * (hi // 2 + 1) + i + full for j in range(k)] for i in range(k)]
    m[k - 1][k - 1] = c.int('corner', 0, 3) * hi + full
    m[1][0] = c.int('side', 0, 2)
    res = pa.stats(cm=np.array(m))
    scores(c, m, k, res)


def labels_many(c, k, m):
    """more than two classes; the first samples show every class"""
    pa = c.mod('utils.performance_analysis')
    y = np.array(list(range(k)) + [c.int('y%d' % i, 0, k - 1) for i in range(m - k + 1)])
    z = np.array(list(range(k)) + [c.int('z%d' % i, 0, k - 1) for i in range(m - k + 1)])
    n = m + 1

    def count(a, b):
        return [[sum([c.b2i(c.And(a[q] == i, b[q] == j)) for q in range(n)]) for j in range(k)] for i in range(k)]
    c.patch(pa, 'confusion_matrix', lambda y_true, y_pred, **kw: np.array(count(y_true, y_pred)))
    scores(c, count(y, z), k, pa.stats(y, z))


def many_errors(c, t, n):
    """long buffers with many errors"""
    pa = c.mod('utils.performance_analysis')
    x = np.ones(n, dtype=np.int_)
    y = np.zeros(n, dtype=np.int_)
    b = c.bits('b', 3)
    y[:3] = b
    bad = n - 3 + sum([1 - b[i] for i in range(3)])
    c.check('share of bits that differ', c.close(pa.ber(x.astype(t), y.astype(t)) * n, bad))
    c.check('share of bits that differ', c.close(pa.ber(y.astype(t), x.astype(t)) * n, bad))


def labels(c, m):
    pa = c.mod('utils.performance_analysis')
    y = c.bits('actual', m)
    z = c.bits('predicted', m)
    c.assume(c.And(c.Or(*[y[i] != y[0] for i in range(m)]), c.Or(*[z[i] != z[0] for i in range(m)])))
    mat = [[sum([c.b2i(c.And(y[q] == i, z[q] == j)) for q in range(m)]) for j in range(2)] for i in range(2)]

    def confusion_matrix(y_true, y_pred, **kw):
        return np.array([[sum([c.b2i(c.And(y_true[q] == i, y_pred[q] == j)) for q in range(m)]) for j in range(2)] for i in range(2)])
    c.patch(pa, 'confusion_matrix', confusion_matrix)
    scores(c, mat, 2, pa.stats(y, z))


def bit_errors(c, t, n):
    pa = c.mod('utils.performance_analysis')
    x = c.bits('x', n)
    y = c.bits('y', n)
    want = sum([c.b2i(x[i] != y[i]) for i in range(n)])
    c.check('share of bits that differ', c.close(pa.ber(x.astype(t), y.astype(t)) * n, want))
    c.check('share of bits that differ', c.close(pa.ber(x, y.astype(t)) * n, want))
    c.check('no errors', pa.ber(x.astype(t), x.astype(t)) == 0)
