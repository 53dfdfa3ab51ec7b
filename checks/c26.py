"""C26 denoising decoder: what the channel decoder is given, what is returned, which cluster learns."""
import math
import numpy as np
from checks.lib import case
from checks import dec
from checks.c14 import conf, rmax, clip
from checks.c18 import follow, posterior, CH

BOUNDS = dict(quick='codes of 4 bits (3 information, 1..3 modelled), streams of 1..4 buffers with symbolic channel values, contexts of 0..2 bits, '
                    '1..2 clusters, two clipping factors, three flip probabilities; streams of 12..40 buffers of which the last two or three are symbolic, contexts up to 3 bits, up to 5 clusters',
              thorough='streams of 5 buffers')
ASSUMPTIONS = ['the LDPC decoder is a stand-in that returns an arbitrary outcome (estimate, soft values, success flag)',
               'the code is systematic (information bits first)', 'decisions of the classifier are arbitrary labels']
EPS = float(np.finfo(float).eps)
FLIP = dict(clean=0.0, low=0.05, high=0.3)
N, K = 4, 3


def cases(tier):
    x = 1 if tier == 'thorough' else 0
    out = []
    for ch in ('clean', 'low', 'high'):
        for k in (0, 1):
            out.append(case('stream_%s_k%d' % (ch, k), 'stream', dict(ch=ch, k=k, m=3 + x, free=(0,)), cost=20))
    out.append(case('stream_two_bits', 'stream', dict(ch='low', k=1, m=2 + x, free=(0, 1)), cost=30))
    out.append(case('stream_k2', 'stream', dict(ch='low', k=2, m=4 + x, free=(0,)), cost=30))
    out.append(case('all_values', 'stream', dict(ch='low', k=1, m=2, free=(0, 1, 3)), cost=20))
    out.append(case('short_model', 'stream', dict(ch='low', k=0, m=2, free=(0, 2), L=1), cost=10))
    out.append(case('tight_clipping', 'stream', dict(ch='low', k=0, m=2, free=(0, 3), cf=0.5), cost=10, reach=['clipped']))
    out.append(case('two_clusters', 'stream', dict(ch='high', k=0, m=4 + x, free=(0,), n=2, ok=False), cost=20))
    out.append(case('three_clusters', 'stream', dict(ch='low', k=1, m=12, free=(0, 1), n=3, ok=False, late=3), cost=20))
    out.append(case('five_clusters', 'stream', dict(ch='high', k=0, m=12, free=(0,), n=5, ok=False, late=2), cost=20))
    out.append(case('long', 'stream', dict(ch='low', k=1, m=16, free=(0, 2), ok=False, late=2), cost=20))
    out.append(case('long_k3', 'stream', dict(ch='high', k=3, m=12, free=(0,), ok=False, late=3), cost=20))
    out.append(case('longer', 'stream', dict(ch='clean', k=0, m=40, free=(1,), ok=False, late=2), cost=20))
    out.append(case('labels', 'labels', dict(m=3 + x), cost=20, reach=['training', 'other cluster']))
    return out


FIXED = [1.5, -0.75, 2.0, -1.0]


def word(c, free, tag):
    x = np.array(FIXED)
    for i in free:
        x[i] = c.real('%s_%d' % (tag, i), -4.0, 4.0, [-2.5, 1.0])
    return x


def log_odds(ch, k, pos, counts, z):
    if pos < k:
        p1 = float(z)
    else:
        p1 = posterior(ch, counts, z, False)[1]
    return math.log((1 - p1 + EPS) / (p1 + EPS))


def expected(c, x, hist, ch, k, L, cf, size):
    """channel value plus confidence times the log odds of the denoised bit, limited"""
    w = conf(size, 2, 0.5)
    lim = cf * rmax(c, [x[i] for i in range(N)])
    out = []
    for i in range(N):
        v = x[i]
        if i < L and w:
            xs = [h[i] for h in hist]
            j = len(xs) - 1
            counts = follow(c, xs, j, k, ch) if j >= k else [0, 0]
            v = v + c.tab(lambda z, *q: w * log_odds(ch, k, j, q, z), xs[j], *counts)
        out.append(clip(c, v, lim))
    return np.array(out)


def make(c, ld, ch, k, L, cf, n, cluster=0):
    m = c.mod('decoders.classifying_DUDE_decoder')
    return m.ClassifyingDudeDecoder(ld, L, cf, 3, n, k, 2, 0.5, FLIP[ch], cluster)


def hard(c, x):
    return [c.b2i(x[i] < 0) for i in range(N)]


def judge(c, ld, r, x, keep, want, label, j):
    c.check('the channel values are not changed', c.close(x, keep))
    c.check('one attempt', len(ld.calls) == j + 1)
    got = ld.calls[j][0]
    c.check('what the channel decoder is given', c.close(got, want))
    o = ld.outcomes[j]
    c.check('the outcome of the channel decoder is returned', c.And(c.same(r[0], o[0]), c.close(r[1], o[1]), bool(r[2]) == o[2], r[3] == o[3], r[4] == label))
    c.check('denoised bits are the signs of what is decoded', c.And(len(r[5]) == N, *[r[5][i] == c.b2i(got[i] < 0) for i in range(N)]))
    c.reach('clipped', c.Not(c.close(got[3], keep[3])))


def stream(c, ch, k, m, free, L=K, cf=3.0, n=1, ok=True, late=None):
    ld = dec.logspa(c, N, K, bits=lambda i: c.bits('e%d' % i, N), soft=lambda i: np.array(FIXED), ok=None if ok else lambda i: i % 2 == 0)
    d = make(c, ld, ch, k, L, cf, n)
    hist = [[] for _ in range(n)]
    for j in range(m):
        lab = j % n
        x = word(c, free, 'x%d' % j) if late is None or j >= m - late else np.array([v * (1 - 2 * ((j // (i + 1) + j // n) % 3 > 1)) for i, v in enumerate(FIXED)])
        keep = x.copy()
        r = d.decode_buffer(x)
        hist[lab].append(hard(c, keep))
        judge(c, ld, r, x, keep, expected(c, keep, hist[lab], ch, k, L, cf, len(hist[lab])), lab, j)


def labels(c, m):
    """the cluster named by the classifier denoises and learns; in training the channel values are decoded as they are"""
    ld = dec.logspa(c, N, K, bits=lambda i: c.bits('e%d' % i, N), soft=lambda i: np.array(FIXED), ok=lambda i: i % 2 == 1)
    d = make(c, ld, 'low', 0, 2, 3.0, 2, 1)
    seen = []

    def classify(b):
        seen.append(b.copy())
        return c.choice('label%d' % len(seen), [0, 1, -1] if len(seen) == 1 else [0, 1])
    d.classifier.classify = classify
    hist = [[], []]
    for j in range(m):
        x = word(c, (0,), 'x%d' % j)
        keep = x.copy()
        r = d.decode_buffer(x)
        h = hard(c, keep)
        c.check('the hard decisions of the model bits are classified, once', c.And(len(seen) == j + 1, c.same(seen[j], np.array(h[:2]))))
        lab = r[4]
        c.reach('training', lab < 0)
        c.reach('other cluster', lab == 1)
        if lab < 0:
            judge(c, ld, r, x, keep, keep, lab, j)
        else:
            hist[lab].append(h)
            judge(c, ld, r, x, keep, expected(c, keep, hist[lab], 'low', 0, 2, 3.0, len(hist[lab])), lab, j)
