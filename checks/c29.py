"""C29 relabelling of clusters: a one-to-one renaming that pairs clusters and classes by largest overlap."""
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='2..4 classes, 4..9 samples of which up to 6 have a symbolic predicted label and up to 6 a symbolic class; classes given or taken in turns; 640 and 864 samples with two symbolic labels',
              thorough='up to 5 classes and 8 symbolic labels')
ASSUMPTIONS = ['predicted labels and classes are 0..n-1; without given classes the number of samples is a multiple of the number of classes']


def cases(tier):
    T = tier == 'thorough'
    out = []
    for k, m in ((2, 4), (2, 6), (3, 6), (4, 4)) + (((2, 8), (4, 8)) if T else ()):
        out.append(case('turns_%d_%d' % (k, m), 'turns', dict(k=k, m=m, free=min(m, 8 if T else 6)), cost=10 * k, reach=['renamed']))
    out.append(case('turns_3_9', 'turns', dict(k=3, m=9, free=5), cost=40, reach=['renamed', 'same best']))
    out.append(case('turns_4_8', 'turns', dict(k=4, m=8, free=4), cost=40, reach=['renamed']))
    for k, m in ((2, 3), (2, 4), (3, 4)) + (((3, 5),) if T else ()):
        out.append(case('given_%d_%d' % (k, m), 'given', dict(k=k, m=m, free=m, classes=m if k == 2 else 2), cost=10 * k, reach=['renamed']))
    out.append(case('given_3_8', 'given', dict(k=3, m=8, free=5, classes=0), cost=40, reach=['renamed', 'same best']))
    out.append(case('given_4_7', 'given', dict(k=4, m=7, free=4, classes=1), cost=40, reach=['renamed', 'same best']))
    out.append(case('uint8', 'given', dict(k=3, m=5, free=4, classes=1, dtype='uint8'), cost=40, reach=['renamed']))
    out.append(case('large', 'large', dict(k=2, most=260, few=60), cost=40, reach=['renamed']))
    out.append(case('large_3', 'large', dict(k=3, most=258, few=30), cost=40, reach=['renamed']))
    return out


def large(c, k, most, few):
    """many samples, a few of them symbolic"""
    f = c.mod('runs.clsutering_analysis.functions')
    t, p = [], []
    for r in range(k):
        t += [r] * (most + few)
        p += [(r + 1) % k] * most + [r] * few
    p = np.array([c.int('p%d' % i, 0, k - 1) for i in range(2)] + p[2:], dtype=np.uint8)
    keep = p.copy()
    res = f.relabel(p, k, np.array(t, dtype=np.uint8))
    judge(c, k, len(t), p, keep, t, res)


def labels(c, k, m, free, name, dtype):
    return np.array([c.int('%s%d' % (name, i), 0, k - 1) for i in range(free)] + [(i * i + 1) % k for i in range(m - free)], dtype=dtype)


def turns(c, k, m, free, dtype='int64'):
    f = c.mod('runs.clsutering_analysis.functions')
    p = labels(c, k, m, free, 'p', dtype)
    keep = p.copy()
    res = f.relabel(p, k)
    judge(c, k, m, p, keep, [i % k for i in range(m)], res)


def given(c, k, m, free, classes, dtype='int64'):
    f = c.mod('runs.clsutering_analysis.functions')
    p = labels(c, k, m, free, 'p', dtype)
    t = np.array([c.int('t%d' % i, 0, k - 1) for i in range(classes)] + [(i // 2) % k for i in range(m - classes)])
    keep = p.copy()
    res = f.relabel(p, k, t)
    judge(c, k, m, p, keep, [t[i] for i in range(m)], res)


def judge(c, k, m, p, keep, t, res):
    out, names = res
    c.check('the predicted labels are not changed', c.same(p, keep))
    c.check('every cluster gets a class', len(names) == k and all([q in names for q in range(k)]))
    to = [names[q] for q in range(k)]
    c.check('classes are 0..n-1', c.And(*[c.And(v >= 0, v < k) for v in to]))
    c.check('no two clusters get the same class', c.And(*[to[a] != to[b] for a in range(k) for b in range(a)]))
    c.check('one label per sample', out.shape == (m,))
    for i in range(m):
        want = to[0]
        for q in range(1, k):
            want = c.If(keep[i] == q, to[q], want)
        c.check('samples get the class of their cluster', out[i] == want)
    n = [[sum([c.b2i(c.And(keep[i] == q, t[i] == r)) for i in range(m)]) for q in range(k)] for r in range(k)]
    own = []                  # samples of the cluster that are of the class it gets
    for q in range(k):
        v = n[0][q]
        for r in range(1, k):
            v = c.If(to[q] == r, n[r][q], v)
        own.append(v)
    for r in range(k):
        mine = own[0]
        for q in range(1, k):
            mine = c.If(to[q] == r, own[q], mine)
        for q in range(k):
            c.check('clusters and classes are paired by the largest overlap first', c.Or(n[r][q] <= mine, n[r][q] <= own[q]))
    if c.Or(*[to[q] != q for q in range(k)]):
        c.reach('renamed')
    if c.Or(*[c.And(n[r][a] > 0, n[r][b] > 0, *[c.And(n[s][a] < n[r][a], n[s][b] < n[r][b]) for s in range(k) if s != r])
              for r in range(k) for a in range(k) for b in range(a)]):
        c.reach('same best')
