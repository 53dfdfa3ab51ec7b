"""C13 what the decoders learn: windowed bit statistics of the buffers they were given."""
import math
import numpy as np
from checks.lib import case
from checks import dec

BOUNDS = dict(quick='models of 2..6 bits, histories of up to 7 buffers with every bit symbolic, windows none/1/2/3, and of 12, 20, 34 and 130 buffers of which the first and last three are symbolic, windows none/9/31/127; up to three clusters; code length 8',
              thorough='histories of up to 12 buffers, models of up to 6 bits')
ASSUMPTIONS = ['the LDPC decoder is replaced by a stand-in with the same interface; the code is systematic (information bits first)',
               'logarithms of the (finitely many) frequencies are tabulated exactly']
N, K = 8, 6
SINGLE = ('entropy', 'flipping', 'weighted_a', 'weighted_b')
MULTI = ('classifying', 'combined', 'unified')


def cases(tier):
    out = []
    th = tier == 'thorough'
    for kind in SINGLE + MULTI:
        for L, m, w in ((2, 3, None), (2, 4, 2), (3, 3, 1), (4, 6, 3), (5, 7, None)) + (((6, 9, None), (6, 9, 5), (6, 8, 2), (3, 12, 7)) if th else ()):
            out.append(case('%s_L%d_m%d_w%s' % (kind, L, m, w), 'learn', dict(kind=kind, L=L, m=m, w=w), cost=L * m))
        for m, w in ((12, 9), (34, 31), (130, 127), (20, None)):
            out.append(case('%s_long_m%d_w%s' % (kind, m, w), 'long', dict(kind=kind, m=m, w=w), cost=m // 2))
        out.append(case('%s_wide' % kind, 'learn', dict(kind=kind, L=6, m=2, w=None), cost=12))
        out.append(case('%s_length' % kind, 'length', dict(kind=kind)))
    for kind in MULTI:
        for w in (1, None):
            out.append(case('%s_many_w%s' % (kind, w), 'many', dict(kind=kind, n=4 if th else 3, w=w), cost=20))
        out.append(case('%s_many_6' % kind, 'many', dict(kind=kind, n=6, w=None, pick=(5, 3)), cost=20))
        out.append(case('%s_clusters' % kind, 'clusters', dict(kind=kind, m=4 if th else 3), cost=12))
    for kind in ('weighted_a', 'weighted_b') + MULTI:
        for f in (0.1, 0.25):
            out.append(case('%s_flip_%s' % (kind, f), 'flip', dict(kind=kind, f=f, m=4 if th else 3), cost=10))
    for kind in ('entropy', 'flipping', 'classifying'):
        out.append(case('%s_given' % kind, 'given', dict(kind=kind)))
    out.append(case('separate', 'separate', {}))
    return out


class Adapter:
    """uniform view of the decoders' learning interface"""

    def __init__(self, c, kind, L, w, f=0.0, clusters=1, model=None, thr=0.5):
        self.kind = kind
        self.c = c
        ld = dec.logspa(c, N, K)
        if kind in ('entropy', 'flipping'):
            m = c.mod('decoders.entropy_bitwise_decoder')
            if kind == 'entropy':
                self.d = m.EntropyBitwiseDecoder(ld, L, thr, 2, 1, window_length=w, model=model)
            else:
                self.d = m.EntropyBitwiseFlippingDecoder(ld, L, thr, 1, window_length=w, model=model)
        elif kind in ('weighted_a', 'weighted_b'):
            m = c.mod('decoders.entropy_bitwise_decoder')
            self.d = m.EntropyBitwiseWeightedDecoder(ld, L, thr, 2.0, window_length=w, bit_flip=f, corrected_dist=f > 0)
        elif kind == 'classifying':
            m = c.mod('decoders.classifiying_decoder')
            self.d = m.ClassifyingEntropyDecoder(ld, L, thr, 2.0, 2, clusters, window_length=w, bit_flip=f, data_model=model)
        elif kind == 'combined':
            m = c.mod('decoders.combined_decoder')
            self.d = m.CombinedDecoder(ld, L, 0.1, 0.1, clusters, 1.5, 0.5, thr, 2.0, 2, window_length=w, bit_flip=f)
        else:
            m = c.mod('decoders.combined_unified_decoder')
            self.d = m.CombinedUnifiedDecoder(ld, L, 0.1, 0.1, clusters, 1.5, 0.5, thr, 2.0, 2, window_length=w, bit_flip=f)

    def update(self, bits, j=0):
        d = self.d
        if self.kind in ('entropy', 'flipping'):
            d.update_model(bits)
        elif self.kind == 'weighted_a':
            d.update_model_a(bits)
        elif self.kind == 'weighted_b':
            d.update_model_b(bits)
        elif self.kind == 'classifying':
            d.update_model(bits, j)
        else:
            d.update_entropy_model(bits, j)

    def state(self, j=0):
        d = self.d
        if self.kind in ('entropy', 'flipping'):
            return d.distribution, d.entropy
        if self.kind == 'weighted_a':
            return d.a_distribution, d.a_entropy
        if self.kind == 'weighted_b':
            return d.b_distribution, d.b_entropy
        return d.distributions[j], d.models_entropy[j]


def H(p):
    return 0.0 if p <= 0 or p >= 1 else -(p * math.log2(p) + (1 - p) * math.log2(1 - p))


def expect(c, ad, hist, w, L, f=0.0, j=0, tag=''):
    """the model is the statistics of the last w buffers"""
    last = hist if w is None else hist[-w:]
    k = len(last)
    dist, ent = ad.state(j)
    if not last:
        c.check(tag + 'nothing learned yet', dist.size == 0 and ent.size == 0)
        return
    c.check(tag + 'a probability of zero and of one per model bit', dist.shape == (L, 2))
    c.check(tag + 'an entropy per model bit', ent.shape == (L,))
    if dist.shape != (L, 2) or ent.shape != (L,):
        return

    def p1(s):
        return min(max((s / k - f) / (1 - 2 * f), 0.0), 1.0)
    for i in range(L):
        s = sum([b[i] for b in last])
        c.check(tag + 'frequency of ones in the window', c.close(dist[i, 1], c.tab(p1, s)))
        c.check(tag + 'frequency of zeros in the window', c.close(dist[i, 0], c.tab(lambda v: 1 - p1(v), s)))
        c.check(tag + 'entropy of the bit', c.close(ent[i], c.tab(lambda v: H(p1(v)), s)))


def bufs(c, name, m, L):
    return [c.bits('%s%d' % (name, i), L) for i in range(m)]


def learn(c, kind, L, m, w):
    ad = Adapter(c, kind, L, w)
    hist = []
    expect(c, ad, hist, w, L)
    for b in bufs(c, 'b', m, L):
        keep = b.copy()
        ad.update(b)
        hist.append(keep)
        c.check('the buffer is not changed', c.same(b, keep))
        expect(c, ad, hist, w, L)


def length(c, kind):
    """a buffer of the wrong length is refused and changes nothing"""
    ex = c.mod('utils.custom_exceptions')
    ad = Adapter(c, kind, 3, None)
    b = c.bits('b', 3)
    ad.update(b)
    n = c.choice('n', [0, 1, 2, 4, 6])
    x = c.bits('x', n)
    ok, e = c.attempt(ad.update, x)
    c.check('wrong length is refused', not ok and isinstance(e, ex.IncorrectBufferLength))
    expect(c, ad, [b], None, 3)
    y = c.bits('y', 3)
    ad.update(y)
    expect(c, ad, [b, y], None, 3)


def clusters(c, kind, m):
    ad = Adapter(c, kind, 2, 2, clusters=2)
    hist = [[], []]
    for i, b in enumerate(bufs(c, 'b', m, 2)):
        j = c.choice('cluster%d' % i, [0, 1])
        ad.update(b, j)
        hist[j].append(b)
        for q in (0, 1):
            expect(c, ad, hist[q], 2, 2, j=q)


def many(c, kind, n, w, pick=None):
    """more clusters, in any order"""
    ad = Adapter(c, kind, 2, w, clusters=n)
    hist = [[] for _ in range(n)]
    first = c.choice('first', list(pick or range(n)))
    second = c.choice('second', list(pick or range(n)))
    order = list(range(n)) + [first, second]
    for b, j in zip(bufs(c, 'b', len(order), 2), order):
        ad.update(b, j)
        hist[j].append(b)
    for q in range(n):
        expect(c, ad, hist[q], w, 2, j=q)


def long(c, kind, m, w):
    """a long history: a few symbolic buffers, then a steady run, then symbolic ones again"""
    ad = Adapter(c, kind, 2, w)
    hist = bufs(c, 'a', 3, 2) + [np.array([i % 2, i % 3 == 0], dtype=np.int_) for i in range(m - 6)] + bufs(c, 'b', 3, 2)
    for i, b in enumerate(hist):
        ad.update(b)
        if i + 1 in (m // 2, m - 3, m - 1, m):
            expect(c, ad, hist[:i + 1], w, 2)


def flip(c, kind, f, m):
    """bit-flip correction: observed frequencies are unfolded through the channel and clipped"""
    ad = Adapter(c, kind, 2, None, f=f)
    hist = []
    for b in bufs(c, 'b', m, 2):
        ad.update(b)
        hist.append(b)
        expect(c, ad, hist, None, 2, f=f)


def given(c, kind):
    """a given model is used as is and never learned over"""
    p = c.int('p', 0, 4)
    q = c.int('q', 0, 4)
    model = np.array([[1 - p / 4, p / 4], [1 - q / 4, q / 4], [0.5, 0.5], [0.25, 0.75]])
    L = c.choice('L', [2, 3, 4])
    ad = Adapter(c, kind, L, None, model=model)
    for _ in range(2):
        dist, ent = ad.state()
        c.check('given distribution', dist.shape == (L, 2) and c.close(dist, model[:L]))
        c.check('entropy of the given distribution', c.And(c.close(ent[0], c.tab(lambda x: H(x / 4), p)), c.close(ent[1], c.tab(lambda x: H(x / 4), q))))
        ad.update(c.bits('b', L))


def separate(c):
    """the two models of the weighted decoder learn independently"""
    ad = Adapter(c, 'weighted_a', 2, 2)
    ha, hb = [], []
    for i, b in enumerate(bufs(c, 'b', 3, 2)):
        if c.choice('which%d' % i, [True, False]):
            ad.d.update_model_a(b)
            ha.append(b)
        else:
            ad.d.update_model_b(b)
            hb.append(b)
        ad.kind = 'weighted_a'
        expect(c, ad, ha, 2, 2, tag='a: ')
        ad.kind = 'weighted_b'
        expect(c, ad, hb, 2, 2, tag='b: ')
