"""C16 the classifying decoder: which cluster a buffer is assigned to, what the channel decoder is given, what is learned."""
import numpy as np
from checks.lib import case
from checks import dec
from checks.c13 import H
from checks.c14 import conf, evidence, steady, rmax, clip

BOUNDS = dict(quick='codes of 6 bits, models of 2 bits learned from 0..3 symbolic buffers per cluster, streams of 1..4 buffers (of 14 and 20 with a few symbolic ones), 1..7 clusters; '
                    'any channel values for soft decoding, grid values for bit-flipping decoders',
              thorough='streams of up to 6 buffers')
ASSUMPTIONS = ['the LDPC decoder is a stand-in that returns an arbitrary outcome (estimate, soft values, success flag)',
               'the code is systematic (information bits first)']
N, K, L = 6, 4, 2


def cases(tier):
    th = tier == 'thorough'
    out = []
    for kind in ('logspa', 'wbf', 'galbf'):
        ro = dict(reduced_only=True) if kind == 'wbf' else {}
        out.append(case('%s_fresh' % kind, 'one', dict(kind=kind, pre=0, k=1), cost=10, **ro))
        out.append(case('%s_trained' % kind, 'one', dict(kind=kind, pre=2, k=1), cost=20, reach=['rectified'], **ro))
        out.append(case('%s_order' % kind, 'order', dict(kind=kind, m=4, k=3), cost=20, **ro))
        out.append(case('%s_learning_phase' % kind, 'phase', dict(kind=kind, m=3), cost=20, **ro))
        out.append(case('%s_stream' % kind, 'stream', dict(kind=kind, m=(4 if th else 3) if kind != 'wbf' else 2), cost=30, **ro))
    out.append(case('galbf_force', 'force', dict(pre=2), cost=20, reach=['forced']))
    out.append(case('galbf_force_wait', 'force', dict(pre=1), cost=20))
    out.append(case('galbf_force_w1', 'force', dict(pre=2, w=1), cost=20))
    for w, k, label in tuple([(w, 1, 0) for w in range(3, 14)]) + ((2, 2, 0), (2, 2, 1), (3, 3, 2), (10, 3, 1)):
        out.append(case('galbf_force_w%d_of%d_%d' % (w, k, label), 'force', dict(pre=w + 1, w=w, k=k, label=label), cost=20, reach=['forced']))
    out.append(case('galbf_force_other', 'force', dict(pre=1, w=2, k=2, label=1), cost=20))
    for kind in ('logspa', 'galbf'):
        out.append(case('labels_%s' % kind, 'labels', dict(kind=kind, k=2), cost=20))
        out.append(case('labels4_%s' % kind, 'labels', dict(kind=kind, k=4), cost=20))
    out.append(case('labels_wbf', 'labels', dict(kind='wbf', k=2), cost=20, reduced_only=True))
    for k in (2, 4, 5, 7):
        out.append(case('turns_%d' % k, 'turns', dict(k=k, m=3 * k + 1), cost=20))
    out.append(case('logspa_long', 'long', dict(m=20, w=9), cost=20))
    out.append(case('logspa_long_all', 'long', dict(m=14, w=None), cost=20))
    return out


def build(c, kind, k, **kw):
    m = c.mod('decoders.classifiying_decoder')
    ld = getattr(dec, kind)(c, N, K)
    d = m.ClassifyingEntropyDecoder(ld, L, 0.9, 2.0, kw.pop('training', 3), k, conf_center=1, conf_slope=0.5, **kw)
    return d, ld


def channel(c, j, kind):
    x = np.array([0.75, -1.0, 2.0, -2.0, 1.0, -1.5])
    for i in (0, 1, 3) if kind != 'wbf' else (0,):
        x[i] = c.real('x%d_%d' % (j, i), -6.0, 6.0, [-2.5, 0.5] if i < 2 else [-3.0, 0.25])
    return x


def hard(c, x):
    return np.array([c.b2i(x[i] < 0) for i in range(N)])


def outcome(kind, o):
    """uniform view: (estimate, llr or None, success, iterations)"""
    return (o[0], o[1], o[2], o[3]) if kind == 'logspa' else (o[0], None, o[1], o[2])


def model_evidence(c, hist):
    """evidence per code bit learned from the buffers of one cluster"""
    m = len(hist)
    out = [0.0] * N
    if m < 2:
        return out
    w = conf(m, 1, 0.5)
    for i in range(L):
        s = sum([b[i] for b in hist])
        out[i] = c.tab(lambda v: w * evidence(v, m) if steady(v, m, 0.9) else 0.0, s)
    return out


def check_input(c, kind, word, x, ev):
    """what the channel decoder is given"""
    if kind == 'logspa':
        lim = 2 * rmax(c, [x[i] for i in range(N)])
        for i in range(N):
            c.check('channel evidence plus model evidence, clipped', c.close(word[i], clip(c, x[i] + ev[i], lim)))
        return
    top = rmax(c, [x[i] for i in range(N)])
    mev = rmax(c, ev)
    f = c.If(mev > top, top / c.If(mev > 0, mev, 1.0), 1.0)
    y = [x[i] + ev[i] * f for i in range(N)]
    if kind == 'galbf':
        for i in range(N):
            c.check('hard decision of channel and model evidence', c.Implies(abs(y[i]) > 1e-6, word[i] == c.b2i(y[i] < 0)))
        return
    ymax = rmax(c, y)
    for i in range(N):
        c.check('channel and model evidence on the scale of the channel', c.If(mev > 0, c.close(word[i], y[i] * top / ymax), c.close(word[i], x[i])))


def check_model(c, d, j, hist):
    dist = d.distributions[j]
    if not hist:
        c.check('a cluster without buffers has no model', dist.size == 0)
        return
    c.check('model size', dist.shape == (L, 2))
    k = len(hist)
    c.check('a cluster learns its own buffers', c.close(dist[:, 1], np.array([sum([b[i] for b in hist]) / k for i in range(L)])))


def step(c, kind, d, ld, x, hist, label, window=99):
    """decode one buffer that belongs to cluster label"""
    keep = x.copy()
    ev = model_evidence(c, hist[label])
    r = d.decode_buffer(x)
    c.check('the channel word is not changed', c.close(x, keep))
    c.check('cluster label', r[8] == label)
    word = ld.calls[-1][0]
    check_input(c, kind, word, keep, ev)
    est, llr, ok, it = outcome(kind, ld.outcomes[-1])
    check_result(c, kind, r, est, llr, ok, it)
    hist[label].append(est[:L] if ok else hard(c, keep)[:L])
    hist[label] = hist[label][-window:]
    for j in range(len(hist)):
        check_model(c, d, j, hist[j])
    c.check('the model of the cluster is returned', c.same(r[6], d.distributions[label]))
    return word


def check_result(c, kind, r, est, llr, ok, it):
    c.check('the estimate of the channel decoder is returned', c.same(r[0], est))
    c.check('soft values only from a soft decoder', c.close(r[1], llr) if kind == 'logspa' else r[1].size == 0)
    c.check('success and iterations', bool(r[2]) == ok and r[3] == it)


def one(c, kind, pre, k):
    d, ld = build(c, kind, k)
    hist = [[]]
    for j in range(pre):
        b = c.bits('b%d' % j, L)
        d.update_model(b, 0)
        hist[0].append(b)
    x = channel(c, 0, kind)
    w = step(c, kind, d, ld, x, hist, 0)
    c.reach('rectified', c.Not(c.close(w, x)) if kind != 'galbf' else c.Not(c.same(w, hard(c, x))))


def order(c, kind, m, k):
    """without clustering the clusters take turns"""
    d, ld = build(c, kind, k, cluster=0)
    hist = [[] for _ in range(k)]
    for i in range(m):
        step(c, kind, d, ld, channel(c, i % 2, kind), hist, i % k)


def stream(c, kind, m):
    """one cluster, several buffers, window of two"""
    d, ld = build(c, kind, 1, window_length=2)
    hist = [[]]
    for i in range(m):
        step(c, kind, d, ld, channel(c, i % 2, kind), hist, 0, 2)


def phase(c, kind, m):
    """before the classifier is trained the channel word is decoded as is and nothing is learned"""
    d, ld = build(c, kind, 2, training=m + 1)
    for i in range(m):
        x = channel(c, i, kind)
        keep = x.copy()
        r = d.decode_buffer(x)
        c.check('label of the learning phase', r[8] == -1)
        c.check('the channel word is not changed', c.close(x, keep))
        w = ld.calls[-1][0]
        c.check('the channel word is decoded as it is', c.close(w, keep) if kind != 'galbf' else c.same(w, hard(c, keep)))
        check_result(c, kind, r, *outcome(kind, ld.outcomes[-1]))
        c.check('nothing is learned', d.distributions[0].size == 0 and d.distributions[1].size == 0)


def force(c, pre, w=2, k=1, label=0):
    """forcing: once the window of the cluster is full, its steady bits are set to the learned value"""
    d, ld = build(c, 'galbf', k, window_length=w, reliability_method=3, training=2 * k)
    # the other clusters learned something else
    for j in range(k):
        for q in range(w):
            if j != label:
                d.update_model(np.array([j % 2, q % 2]), j)
    hist = []
    for j in range(pre):
        b = c.bits('b%d' % j, L) if j > pre - 4 else np.array([0, 1])
        d.update_model(b, label)
        hist.append(b)
    last = hist[-w:]
    d.classifier.classify = lambda bits: label
    x = channel(c, 0, 'galbf')
    h = hard(c, x)
    r = d.decode_buffer(x)
    c.check('cluster label', r[8] == label)
    word = ld.calls[-1][0]
    n = len(last)
    for i in range(N):
        if i >= L or n < max(w, 2):
            c.check('other bits are hard decisions', word[i] == h[i])
            continue
        s = sum([b[i] for b in last])
        st = c.tab(lambda v: steady(v, n, 0.9), s)
        c.check('steady bits are forced, others are hard decisions', word[i] == c.If(st, c.b2i(2 * s > n), h[i]))
    c.reach('forced', c.Not(c.same(word, h)))


def labels(c, kind, k):
    """with clustering, a buffer is decoded with the model of the cluster the classifier names"""
    d, ld = build(c, kind, k, training=3)
    hist = [[] for _ in range(k)]
    for j in range(k):
        for q in range(2):
            b = c.bits('b%d%d' % (j, q), L) if j in (0, k - 1) and kind != 'wbf' else np.array([j % 2, (j + q) // 2 % 2])
            d.update_model(b, j)
            hist[j].append(b)
    seen = []
    lab = c.choice('label', list(range(k)))

    def classify(bits):
        seen.append(bits.copy())
        return lab
    d.classifier.classify = classify
    x = channel(c, 0, kind)
    h = hard(c, x)
    step(c, kind, d, ld, x, hist, lab)
    c.check('the hard decisions of the model bits are classified', len(seen) == 1 and c.same(seen[0], h[:L]))


def turns(c, k, m):
    """clusters take turns, for as long as it goes"""
    mod = c.mod('decoders.classifiying_decoder')
    ld = dec.logspa(c, N, K, ok=lambda i: i % 3 > 0, soft=lambda i: np.array([1.0] * N),
                    bits=lambda i: c.bits('e%d' % i, N) if i in (1, m - 2) else np.array([i % 2, i // 2 % 2, 0, 1, 0, 1], dtype=np.int_))
    d = mod.ClassifyingEntropyDecoder(ld, L, 0.9, 2.0, 3, k, conf_center=1, conf_slope=0.5, window_length=2, cluster=0)
    hist = [[] for _ in range(k)]
    x = channel(c, 0, 'logspa')
    for i in range(m):
        r = d.decode_buffer(x)
        j = i % k
        c.check('clusters take turns', r[8] == j)
        hist[j].append(ld.outcomes[-1][0][:L] if i % 3 else hard(c, x)[:L])
        check_model(c, d, j, hist[j][-2:])
    for q in range(k):
        check_model(c, d, q, hist[q][-2:])


def long(c, m, w):
    """a long stream through one cluster: evidence keeps pace with what was learned"""
    mod = c.mod('decoders.classifiying_decoder')
    sym = (0, m - 3, m - 2)
    ld = dec.logspa(c, N, K, ok=lambda i: i % 4 != 1, bits=lambda i: c.bits('e%d' % i, N) if i in sym else np.array([1, i % 5 == 0, 0, 1, 0, 1], dtype=np.int_),
                    soft=lambda i: np.array([1.0] * N))
    d = mod.ClassifyingEntropyDecoder(ld, L, 0.9, 2.0, 3, 1, conf_center=1, conf_slope=0.5, window_length=w)
    hist = []
    for i in range(m):
        x = channel(c, i, 'logspa') if i in (1, m - 1) else np.array([0.75, -1.0, 2.0, -2.0, 1.0, -1.5])
        ev = model_evidence(c, hist if w is None else hist[-w:])
        r = d.decode_buffer(x)
        check_input(c, 'logspa', ld.calls[-1][0], x, ev)
        c.check('cluster label', r[8] == 0)
        hist.append(ld.outcomes[-1][0][:L] if i % 4 != 1 else hard(c, x)[:L])
    check_model(c, d, 0, hist if w is None else hist[-w:])
