"""C19 the entropy-aided maximum-likelihood denoiser."""
import math
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='buffers of 2 bits, histories of up to 4 symbolic buffers, windows 0..3, bit-flip rates 0, 0.1, 0.2, thresholds 0.3..0.95, '
                    'symbolic observations (soft or hard); streams of up to 4 buffers; histories of up to 35 and streams of 12 buffers of which four are symbolic',
              thorough='histories of up to 6 buffers, buffers of 3 bits')
ASSUMPTIONS = ['floats are compared up to 1e-6 (floats as reals)']
EPS = 2.0 ** -52
N = 2


def cases(tier):
    th = tier == 'thorough'
    out = []
    for f in (0.0, 0.1, 0.2):
        for w in (0, 1, 2, 3):
            if f == 0.1 or w in (0, 2):
                out.append(case('learn_f%s_w%d' % (f, w), 'learn', dict(f=f, w=w, m=6 if th else 4), cost=5))
    for f, t in ((0.0, 0.5), (0.1, 0.5), (0.1, 0.95), (0.2, 0.3)):
        for m in (0, 1, 2, 3):
            out.append(case('predict_f%s_t%s_m%d' % (f, t, m), 'predict', dict(f=f, t=t, m=m, w=0), cost=10,
                            reach=['changed'] if m > 1 else []))
    out.append(case('predict_window', 'predict', dict(f=0.1, t=0.5, m=4, w=3), cost=10, reach=['changed']))
    for soft in (True, False):
        for hard in (True, False):
            t = '%s_%s' % ('soft' if soft else 'bits', 'bits' if hard else 'soft')
            out.append(case('denoise_' + t, 'denoise', dict(soft=soft, hard=hard, m=2), cost=10, reach=['corrected']))
            out.append(case('stream_' + t, 'stream', dict(soft=soft, hard=hard, m=4 if th else 3), cost=20))
            out.append(case('denoise_long_' + t, 'denoise', dict(soft=soft, hard=hard, m=9), cost=10, reach=['corrected']))
            out.append(case('follow_' + t, 'follow', dict(soft=soft, hard=hard, m=12, w=0), cost=20))
            out.append(case('follow_w5_' + t, 'follow', dict(soft=soft, hard=hard, m=12, w=5), cost=20))
    for w in (0, 5, 9, 31):
        for f in (0.0, 0.1):
            out.append(case('learn_long_f%s_w%d' % (f, w), 'learn', dict(f=f, w=w, m=w + 4 if w else 20, long=True), cost=20))
    for w, m in ((0, 6), (0, 15), (7, 9), (20, 20), (20, 24)):
        for t in (0.5, 0.95):
            out.append(case('predict_long_t%s_w%d_m%d' % (t, w, m), 'predict', dict(f=0.1, t=t, m=m, w=w), cost=10, reach=['changed']))
    out.append(case('reset', 'reset', {}, cost=5))
    return out


def make(c, f=0.1, t=0.5, w=0, hard=False, soft=True):
    return c.mod('inference.entropy_mle').EMLE(f, t, w, conf_center=2, conf_slope=0.5, hard_decision=hard, soft_input=soft)


def p1(s, m, f):
    """probability of a one, unfolded through the channel, when s of m received bits were ones"""
    return min(1.0, max(0.0, (s / m - f) / (1 - 2 * f)))


def ent(p):
    return -sum([q * math.log2(q) for q in (p, 1 - p) if q > 0])


def kept(hist, w):
    return hist[-w:] if w else hist


def ones(h, i):
    return sum([b[i] for b in h])


def evidence(c, hist, f, t, w, i):
    """what the model says about bit i"""
    h = kept(hist, w)
    m = len(h)
    if m < 2:
        return 0.0
    conf = 1 / (1 + math.exp(-(m - 2) * 0.5))

    def ev(s):
        p = p1(s, m, f)
        return conf * math.log((1 - p + EPS) / (p + EPS)) if ent(p) < t else 0.0
    return c.tab(ev, ones(h, i))


def check_model(c, d, hist, f, w):
    h = kept(hist, w)
    m = len(h)
    c.check('model size', d.model_size == m)
    want = [c.tab(lambda s: p1(s, m, f), ones(h, i)) for i in range(N)]
    c.check('probability of one, unfolded through the channel', c.And(len(d.p1) == N, *[c.close(d.p1[i], want[i]) for i in range(N)]))
    went = [c.tab(lambda s: ent(p1(s, m, f)), ones(h, i)) for i in range(N)]
    c.check('entropy of the model', c.And(*[c.close(d.model_entropy[i], went[i]) for i in range(N)]))


def buffer(c, j, m):
    """buffer j of m: the first one and the last three are symbolic"""
    return c.bits('b%d' % j, N) if j in (0, m - 3, m - 2, m - 1) else np.array([j % 3 == 0, j % 7 > 0], dtype=np.int_)


def learn(c, f, w, m, long=False):
    d = make(c, f=f, w=w)
    hist = []
    for j in range(m):
        b = buffer(c, j, m) if long else c.bits('b%d' % j, N)
        keep = b.copy()
        d.update_model(b)
        c.check('the buffer is not changed', c.same(b, keep))
        hist.append(keep)
        if not long or j > m - 5:
            check_model(c, d, hist, f, w)


def train(c, d, m):
    hist = []
    for j in range(m):
        b = buffer(c, j, m)
        d.update_model(b)
        hist.append(b)
    return hist


def predict(c, f, t, m, w):
    d = make(c, f=f, t=t, w=w)
    hist = train(c, d, m)
    x = c.reals('x', N, -40.0, 40.0, [-2.0, 1.0])
    keep = x.copy()
    y = d.predict(x)
    for i in range(N):
        c.check('steady bits get the evidence of the model, others nothing', c.close(y[i], keep[i] + evidence(c, hist, f, t, w, i)))
    c.reach('changed', c.Not(c.close(y, keep)))
    if m:
        check_model(c, d, hist, f, w)


def observe(c, tag, soft):
    return c.reals(tag, N, -6.0, 6.0, [-2.0, 1.0]) if soft else c.bits(tag, N)


def expected(c, d, hist, x, soft, hard, f=0.1, t=0.5, w=0):
    """(output, hard bits) for observation x"""
    b = [c.b2i(x[i] < 0) if soft else x[i] for i in range(N)]
    llr = [x[i] if soft else c.If(x[i] == 1, -1.0, 1.0) * math.log((1 - f) / f) for i in range(N)]
    y = [llr[i] + evidence(c, hist, f, t, w, i) for i in range(N)]
    return b, y


def step(c, d, hist, x, soft, hard, w=0):
    keep = x.copy()
    b, y = expected(c, d, hist, keep, soft, hard, w=w)
    est, cost = d.denoise_buffer(x)
    c.check('the observation is not changed', c.close(x, keep))
    judge(c, est, cost, b, y, hard)
    hist.append(b)
    check_model(c, d, hist, 0.1, w)
    return est, b, y


def judge(c, est, cost, b, y, hard):
    # values this close to zero may fall on either side
    sure = c.And(*[c.Or(v < -1e-6, v > 1e-6) for v in y])
    yb = [c.b2i(v < 0) for v in y]
    for i in range(N):
        if hard:
            c.check('hard decision of the rectified value', c.Implies(sure, est[i] == yb[i]))
        else:
            c.check('rectified value', c.close(est[i], y[i]))
    c.check('cost is the number of bits that changed', c.Implies(sure, cost == sum([c.b2i(u != v) for u, v in zip(yb, b)])))


def denoise(c, soft, hard, m):
    d = make(c, hard=hard, soft=soft)
    hist = train(c, d, m)
    est, b, y = step(c, d, hist, observe(c, 'x', soft), soft, hard)
    c.reach('corrected', c.Or(*[c.b2i(y[i] < 0) != b[i] for i in range(N)]))


def follow(c, soft, hard, m, w):
    """a long stream, some observations symbolic"""
    d = make(c, hard=hard, soft=soft, w=w)
    hist = []
    for j in range(m):
        if j in (1, m - 2, m - 1):
            x = observe(c, 'x%d' % j, soft)
        else:
            x = np.array([-2.0 + j % 3 * 2.5, 3.0 - j % 5]) if soft else np.array([j % 3 == 0, j % 5 > 3], dtype=np.int_)
        step(c, d, hist, x, soft, hard, w)


def stream(c, soft, hard, m):
    """a sequence is denoised buffer by buffer, each with what was learned before it"""
    d = make(c, hard=hard, soft=soft, w=2)
    rows = [observe(c, 'x%d' % j, soft) for j in range(m)]
    x = np.array([[r[i] for i in range(N)] for r in rows])
    keep = x.copy()
    est, cost = d.denoise_sequence(x)
    c.check('the observations are not changed', c.close(x, keep))
    c.check('one estimate and cost per buffer', est.shape == (m, N) and cost.shape == (m,))
    hist = []
    for j in range(m):
        b, y = expected(c, d, hist, keep[j], soft, hard, w=2)
        judge(c, est[j], cost[j], b, y, hard)
        hist.append(b)
    check_model(c, d, hist, 0.1, 2)


def reset(c):
    d = make(c, w=3)
    train(c, d, 2)
    d.reset()
    x = c.reals('x', N, -6.0, 6.0, [-2.0, 1.0])
    keep = x.copy()
    y = d.predict(x)
    c.check('after a reset nothing is known', c.And(d.model_size == 0, c.close(y, keep)))
    h = []
    for j in range(2):
        b = c.bits('new%d' % j, N)
        d.update_model(b)
        h.append(b)
        check_model(c, d, h, 0.1, 3)
