"""C17 buffer clustering: what a cluster counts, the learning phase, how clusters merge, which cluster a buffer is assigned to."""
import math
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='buffers of 2..3 bits, all symbolic (up to 8 bits with a few symbolic training bits, up to 64 bits for merging); learning phases of 1..3 buffers, 1..3 clusters, streams of up to 5 buffers, clusters of up to 70000 buffers, every metric and weighting',
              thorough='learning phases of up to 4 buffers, buffers of 3 bits')
ASSUMPTIONS = ['floating-point distances are compared with a tolerance of 1e-9: exact ties may go either way']
EPS = 2.0 ** -52


def cases(tier):
    th = tier == 'thorough'
    out = [case('counts', 'counts', {}, cost=5), case('merge', 'merge', {}, cost=5), case('majority', 'majority', {}, cost=5)]
    for m in (2, 3, 4):
        out.append(case('learning_%d' % m, 'learning', dict(m=m), cost=5))
    for dist in ('LL', 'hamming'):
        out.append(case('assign_%s' % dist, 'assign', dict(dist=dist, n=2, pre=2), cost=40, reach=['first', 'second']))
        out.append(case('assign3_%s' % dist, 'assign', dict(dist=dist, n=2, pre=3), cost=60, reach=['first', 'second']))
        out.append(case('stream_%s' % dist, 'stream', dict(dist=dist, n=2, m=3, q=2, k=2), cost=60))
        out.append(case('stream1_%s' % dist, 'stream', dict(dist=dist, n=2, m=3, q=2, k=1), cost=20))
    for md in ('Hellinger', 'KlDiv'):
        for ws in ('linear', 'sqrt', 'none'):
            out.append(case('merging_%s_%s' % (md, ws), 'merging', dict(md=md, ws=ws, n=2, m=4 if th else 3, k=2), cost=30))
        out.append(case('merging4_%s' % md, 'merging', dict(md=md, ws='linear', n=2, m=4, k=2), cost=90))
        out.append(case('merging_deep_%s' % md, 'merging', dict(md=md, ws='linear', n=2, m=3, k=1), cost=30))
    for n, sizes in ((5, (1, 1)), (6, (2, 3)), (9, (1, 4)), (16, (3, 2)), (64, (2, 2))):
        out.append(case('merge_n%d_%d_%d' % (n, sizes[0], sizes[1]), 'merge_sized', dict(n=n, sizes=sizes), cost=10))
    for dist in ('LL', 'hamming'):
        out.append(case('big_%s' % dist, 'big', dict(dist=dist, sizes=(60, 132)), cost=20))
        out.append(case('huge_%s' % dist, 'big', dict(dist=dist, sizes=(1000, 70000)), cost=20))
        out.append(case('three_%s' % dist, 'three', dict(dist=dist, n=2), cost=60))
        for n in (5, 8):
            out.append(case('wide_%s_%d' % (dist, n), 'wide', dict(dist=dist, n=n), cost=40))
    out.append(case('equal', 'equal', dict(dist='hamming'), cost=10))
    out.append(case('few_buffers', 'few', {}, cost=5))
    return out


def ones(bufs, i):
    return sum([b[i] for b in bufs])


def member(c, cl, bufs, tag=''):
    """cluster cl holds exactly the buffers in bufs"""
    k = len(bufs)
    n = len(bufs[0])
    c.check(tag + 'number of buffers of a cluster', cl.n_samples == k and len(cl) == k)
    want = np.array([ones(bufs, i) / k for i in range(n)])
    c.check(tag + 'bit frequencies of a cluster', c.And(c.close(cl.dist[:, 1], want), c.close(cl.dist[:, 0], 1 - want)))


def start(c, cm, bit, uid=0):
    """a cluster of one buffer"""
    return cm.Cluster(np.array([[1 - b, b] for b in bit]), uid)


def counts(c):
    cm = c.mod('inference.clustering')
    h = [c.bits('b%d' % j, 3) for j in range(4)]
    cl = start(c, cm, h[0], 5)
    c.check('identity', cl.uid == 5)
    for j in range(1, 4):
        member(c, cl, h[:j])
        cl.add_sample(h[j])
    member(c, cl, h)


def merge(c):
    cm = c.mod('inference.clustering')
    h = [c.bits('b%d' % j, 2) for j in range(4)]
    a = start(c, cm, h[0], 1)
    b = start(c, cm, h[1], 2)
    b.add_sample(h[2])
    a.merge_cluster(b)
    member(c, a, h[:3])
    member(c, b, h[1:3])
    a.add_sample(h[3])
    member(c, a, h)
    member(c, b, h[1:3])
    c.check('identity', a.uid == 1 and b.uid == 2)


def majority(c):
    cm = c.mod('inference.clustering')
    h = [c.bits('b%d' % j, 2) for j in range(5)]
    cl = start(c, cm, h[0])
    for j in range(5):
        if j:
            cl.add_sample(h[j])
        hb = cl.hard_bits
        for i in range(2):
            s = ones(h[:j + 1], i)
            c.check('representative bits are majority bits, ties are zero', hb[i] == c.b2i(2 * s > j + 1))


def learning(c, m):
    """during the learning phase nothing is assigned, every buffer is its own cluster"""
    cm = c.mod('inference.clustering')
    f = cm.BufferClassifier(m, 2)
    h = []
    for j in range(m - 1):
        b = c.bits('b%d' % j, 3)
        keep = b.copy()
        c.check('no cluster is named in the learning phase', f.classify(b) == -1)
        c.check('the buffer is not changed', c.same(b, keep))
        h.append(b)
        c.check('every buffer is kept', len(f.clusters) == j + 1 and f.samples == j + 1)
        for i in range(j + 1):
            member(c, f.clusters[i], [h[i]])
    b = c.bits('last', 3)
    lab = f.classify(b)
    c.check('a cluster is named after it', lab >= 0 and lab < min(2, m - 1))
    c.check('number of clusters', len(f.clusters) == min(2, m - 1))
    c.check('every buffer is counted once', sum([len(x) for x in f.clusters]) == m)


def few(c):
    """fewer learning buffers than clusters"""
    cm = c.mod('inference.clustering')
    f = cm.BufferClassifier(2, 3)
    a, b = c.bits('a', 2), c.bits('b', 2)
    f.classify(a)
    c.check('the only cluster is named', f.classify(b) == 0)
    member(c, f.clusters[0], [a, b])


def metric(c, dist, bufs, b):
    """how far b is from a cluster of buffers"""
    k = len(bufs)
    n = len(b)
    tot = 0.0
    for i in range(n):
        s = ones(bufs, i)
        if dist == 'hamming':
            tot = tot + c.tab(lambda s, v: float(v != (2 * s > k)), s, b[i])
        else:
            tot = tot + c.tab(lambda s, v: -max(-100.0, math.log((s if v else k - s) / k + EPS)), s, b[i])
    return tot


def ready(c, cm, dist, sizes, n):
    """a classifier in use, with clusters of the given sizes"""
    f = cm.BufferClassifier(2, len(sizes), classify_dist=dist)
    f.init = True
    f.samples = sum(sizes)
    hist = []
    for j, s in enumerate(sizes):
        h = [c.bits('b%d_%d' % (j, q), n) for q in range(s)]
        cl = start(c, cm, h[0], j)
        for q in range(1, s):
            cl.add_sample(h[q])
        f.clusters.append(cl)
        hist.append(h)
    return f, hist


def step(c, f, dist, hist, b):
    d = [metric(c, dist, h, b) for h in hist]
    keep = b.copy()
    lab = f.classify(b)
    c.check('the buffer is not changed', c.same(b, keep))
    c.check('a cluster is named', lab in range(len(hist)))
    for j in range(len(hist)):
        if lab == j:
            c.check('the nearest cluster is named', c.And(*[d[j] <= x + 1e-9 for x in d]))
            if dist == 'hamming':
                c.check('the first of equally near clusters is named', c.And(*[d[j] < x for x in d[:j]]))
            hist[j] = hist[j] + [b]
    for j in range(len(hist)):
        member(c, f.clusters[j], hist[j], 'only the named cluster grows: ')
        c.check('names are stable', f.clusters[j].uid == j)
    return lab


def assign(c, dist, n, pre):
    cm = c.mod('inference.clustering')
    f, hist = ready(c, cm, dist, [pre, 2], n)
    lab = step(c, f, dist, hist, c.bits('x', n))
    c.reach('first', lab == 0)
    c.reach('second', lab == 1)


def merge_sized(c, n, sizes):
    """clusters of any size and buffer length join completely"""
    cm = c.mod('inference.clustering')
    cls, hist = [], []
    for j, s in enumerate(sizes):
        h = [c.bits('b%d_%d' % (j, q), n) for q in range(s)]
        cl = start(c, cm, h[0], j)
        for b in h[1:]:
            cl.add_sample(b)
        cls.append(cl)
        hist.append(h)
    cls[0].merge_cluster(cls[1])
    member(c, cls[0], hist[0] + hist[1])
    member(c, cls[1], hist[1])


def big(c, dist, sizes):
    """clusters that have already seen many buffers keep counting"""
    cm = c.mod('inference.clustering')
    f = cm.BufferClassifier(2, 2, classify_dist=dist)
    f.init = True
    f.samples = sum(sizes)
    cnt = []
    for j, s in enumerate(sizes):
        p = [c.int('p%d_%d' % (j, i), 0, 4) if dist == 'hamming' else c.choice('p%d' % j, [(0, 3), (1, 4)])[i] for i in range(2)]
        o = [v * (s // 4) for v in p]
        f.clusters.append(cm.Cluster(np.array([[1 - v / 4, v / 4] for v in p]), j, s))
        cnt.append((s, o))
    for q in range(2):
        b = c.bits('x%d' % q, 2)
        lab = f.classify(b)
        c.check('a cluster is named', lab in (0, 1))
        for j in (0, 1):
            if lab == j:
                k, o = cnt[j]
                cnt[j] = (k + 1, [o[i] + b[i] for i in range(2)])
        for j in (0, 1):
            k, o = cnt[j]
            cl = f.clusters[j]
            c.check('number of buffers of a cluster', cl.n_samples == k and len(cl) == k)
            c.check('bit frequencies of a cluster', c.close(cl.dist[:, 1], np.array([v / k for v in o])))


def three(c, dist, n):
    cm = c.mod('inference.clustering')
    f, hist = ready(c, cm, dist, [1, 2, 1], n)
    step(c, f, dist, hist, c.bits('x', n))


def equal(c, dist):
    """clusters that learned the same: the first one is named"""
    cm = c.mod('inference.clustering')
    f = cm.BufferClassifier(2, 3, classify_dist=dist)
    f.init = True
    h = [c.bits('b%d' % q, 2) for q in range(2)]
    for j in range(3):
        cl = start(c, cm, h[0], j)
        for _ in range(j):
            cl.add_sample(h[1])
            cl.add_sample(h[0])
        cl.add_sample(h[1])
        f.clusters.append(cl)
    f.samples = 12
    c.check('the first of equal clusters is named', f.classify(c.bits('x', 2)) == 0)


def wide(c, dist, n):
    """longer buffers, some bits set"""
    cm = c.mod('inference.clustering')
    f = cm.BufferClassifier(2, 2, classify_dist=dist)
    f.init = True
    f.samples = 4
    hist = []
    for j in range(2):
        h = []
        for q in range(2):
            b = np.array([(i + j + q) % 3 == 0 for i in range(n)], dtype=np.int_)
            b[0] = c.int('b%d_%d' % (j, q), 0, 1)
            h.append(b)
        cl = start(c, cm, h[0], j)
        cl.add_sample(h[1])
        f.clusters.append(cl)
        hist.append(h)
    step(c, f, dist, hist, c.bits('x', n))


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def apart(c, md, ws, a, b):
    """weighted distance of two clusters of buffers"""
    w = (len(a) + len(b)) / 2
    w = math.sqrt(w) if ws == 'sqrt' else w if ws == 'linear' else 1.0
    ka, kb = len(a), len(b)
    n = len(a[0])
    tot = 0.0

    def h(p, q):
        return math.sqrt((math.sqrt(p) - math.sqrt(q)) ** 2 + (math.sqrt(1 - p) - math.sqrt(1 - q)) ** 2) / math.sqrt(2)

    def kl(p, q):
        t = 0.0
        for u, v in ((p, q), (1 - p, 1 - q)):
            if u > 0:
                if v == 0:
                    return float('inf')
                t += u * math.log2(u / v)
        return t

    for i in range(n):
        if md == 'KlDiv':
            tot = tot + c.tab(lambda s, t: min(10.0, max(0.0, kl(s / ka, t / kb) + kl(t / kb, s / ka))), ones(a, i), ones(b, i))
        else:
            tot = tot + c.tab(lambda s, t: h(s / ka, t / kb), ones(a, i), ones(b, i))
    return w * tot / n


def merging(c, md, ws, n, m, k):
    """the clusters after the learning phase: repeatedly the two nearest ones were joined"""
    cm = c.mod('inference.clustering')
    f = cm.BufferClassifier(m + 1, k, merge_dist=md, weight_scheme=ws)
    h = []
    for j in range(m):
        b = c.bits('b%d' % j, n)
        f.classify(b)
        h.append(b)
    f.merge_clusters()
    c.check('number of clusters', len(f.clusters) == k)
    got = [(cl.n_samples, cl.dist) for cl in f.clusters]
    c.check('names are positions', all([f.clusters[i].uid == i for i in range(k)]))
    c.check('every buffer is in one cluster', sum([g[0] for g in got]) == m)
    c.check('the nearest clusters were joined', explains(c, md, ws, [[b] for b in h], k, got, n))


def explains(c, md, ws, groups, k, got, n):
    """some sequence of nearest joins leads from groups to the clusters got (ties within 1e-9 may go either way)"""
    if len(groups) == k:
        conds = []
        for g, (size, dist) in zip(groups, got):
            if size != len(g):
                return False
            conds.append(c.close(dist[:, 1], np.array([ones(g, i) / len(g) for i in range(n)])))
        return c.And(*conds)
    ps = pairs(len(groups))
    d = {p: apart(c, md, ws, groups[p[0]], groups[p[1]]) for p in ps}
    ways = []
    for i, j in ps:
        nxt = [g + groups[j] if q == i else g for q, g in enumerate(groups) if q != j]
        ways.append(c.And(*([d[(i, j)] <= d[p] + 1e-9 for p in ps] + [explains(c, md, ws, nxt, k, got, n)])))
    return c.Or(*ways)


def stream(c, dist, n, m, q, k):
    """a whole stream: learning phase, then assignments"""
    cm = c.mod('inference.clustering')
    f = cm.BufferClassifier(m, k, classify_dist=dist)
    h = []
    for j in range(m - 1):
        b = c.bits('b%d' % j, n)
        c.check('learning phase', f.classify(b) == -1)
        h.append(b)
    hist = [[b] for b in h] if k == m - 1 else [h]
    for j in range(q):
        step(c, f, dist, hist, c.bits('x%d' % j, n))
    c.check('every buffer is counted once', sum([len(x) for x in f.clusters]) == m - 1 + q)
