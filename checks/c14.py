"""C14 how a learned bit model is used: only steady bits are touched, towards the learned value, within the clipping range."""
import math
import numpy as np
from checks.lib import case
from checks import dec
from checks.c13 import Adapter, H, N, K, bufs

BOUNDS = dict(quick='models of 1..3 bits learned from 0..4 symbolic buffers (up to 30 buffers of which the last 3 are symbolic), code length 8, observations any reals in [-8, 8] (or grid values), '
                    'thresholds 0/0.3/0.9/1, clipping factors 1 and 2, two clusters, all confidence schemes',
              thorough='models of up to 4 bits learned from up to 6 buffers')
ASSUMPTIONS = ['the LDPC decoder is replaced by a stand-in with the same interface; the code is systematic (information bits first)',
               'soft values are real numbers; logarithms of the finitely many frequencies are tabulated exactly']
EPS = 2.220446049250313e-16
LLR = 8.0


def cases(tier):
    th = tier == 'thorough'
    out = []
    for thr in (0.0, 0.3, 0.9, 1.0):
        for m in (0, 1, 3) + ((4, 6) if th else ()):
            out.append(case('soft_t%s_m%d' % (thr, m), 'soft', dict(thr=thr, m=m, L=2), cost=20 * m))
            out.append(case('flip_t%s_m%d' % (thr, m), 'flipping', dict(thr=thr, m=m, L=3), cost=5 * m))
            for kind in ('classifying', 'combined', 'unified'):
                out.append(case('%s_t%s_m%d' % (kind, thr, m), 'model_llr', dict(kind=kind, thr=thr, m=m, L=3), cost=5 * m))
    for kind in ('soft', 'flip', 'classifying', 'combined', 'unified'):
        for m in (9, 14, 30):
            p = dict(thr=0.9 if m == 30 else 1.0, m=m, L=2 if kind == 'soft' else 3, fixed=m - 3)
            if kind in ('soft', 'flip'):
                out.append(case('%s_long_m%d' % (kind, m), 'soft' if kind == 'soft' else 'flipping', p, cost=20))
            else:
                out.append(case('%s_long_m%d' % (kind, m), 'model_llr', dict(p, kind=kind), cost=20))
    for k in (0, 1, 2, 3):
        for w in (1, 2):
            out.append(case('soft_wait_%d_w%d' % (k, w), 'wait', dict(kind='entropy', least=k, w=w), cost=5))
            out.append(case('flip_wait_%d_w%d' % (k, w), 'wait', dict(kind='flipping', least=k, w=w), cost=5))
        out.append(case('soft_wait_%d' % k, 'wait', dict(kind='entropy', least=k), cost=5))
        out.append(case('flip_wait_%d' % k, 'wait', dict(kind='flipping', least=k), cost=5))
    for L in (1, 2, 4, 6):
        for r in (1, 2, 3, 4):
            out.append(case('soft_given_L%d_r%d' % (L, r), 'given', dict(kind='entropy', L=L, r=r), cost=5))
            out.append(case('flip_given_L%d_r%d' % (L, r), 'given', dict(kind='flipping', L=L, r=r), cost=5))
    for scheme in (0, 1, 2, 3, 5):
        for ma, mb in ((9, 4), (3, 12)):
            out.append(case('weighted_long_s%d_a%d_b%d' % (scheme, ma, mb), 'weighted', dict(scheme=scheme, ma=ma, mb=mb, thr=0.9, fixed=2), cost=60))
    for scheme in range(6):
        for ma, mb in ((0, 0), (0, 2), (2, 2), (1, 3)) + (((3, 3), (2, 4)) if th else ()):
            if scheme == 4 and ma == 0:
                continue
            out.append(case('weighted_s%d_a%d_b%d' % (scheme, ma, mb), 'weighted', dict(scheme=scheme, ma=ma, mb=mb, thr=0.9), cost=20 * (ma + mb)))
    for k in (1, 2, 4):
        out.append(case('classifying_given_%d' % k, 'class_given', dict(k=k)))
    for kind in ('classifying', 'combined', 'unified'):
        out.append(case('%s_clusters' % kind, 'clusters', dict(kind=kind)))
    return out


def conf(size, center, slope):
    return 0.0 if size <= 1 else 1 / (1 + math.exp(-(size - center) * slope))


def evidence(s, k):
    """log-likelihood ratio of a bit that was one in s of k buffers"""
    return math.log((EPS + 1 - s / k) / (s / k + EPS))


def steady(s, k, thr):
    return H(s / k) < thr


def rmax(c, xs):
    m = abs(xs[0])
    for x in xs[1:]:
        a = abs(x)
        m = c.If(a > m, a, m)
    return m


def clip(c, x, lim):
    return c.If(x > lim, lim, c.If(x < 0 - lim, 0 - lim, x))


def observe(c, name='x'):
    return c.reals(name, N, -LLR, LLR, [-3.0, 0.5, 2.0])


def history(c, m, L, fixed):
    """m buffers, the first `fixed` of them with set bits"""
    return [np.array([j == 0 and i % 2 == 0 for j in range(L)], dtype=np.int_) for i in range(fixed)] + bufs(c, 'b', m - fixed, L)


def soft(c, thr, m, L, fixed=0):
    ad = Adapter(c, 'entropy', L, None, thr=thr)
    hist = history(c, m, L, fixed)
    for b in hist:
        ad.update(b)
    x = observe(c)
    keep = x.copy()
    y = ad.d.model_prediction(x)
    c.check('the observation is not changed', c.close(x, keep))
    c.check('one value per code bit', y.shape == (N,))
    lim = 2 * rmax(c, [keep[i] for i in range(N)])
    for i in range(N):
        if i >= L or m < 1:
            c.check('other bits are left alone', c.close(y[i], keep[i]))
            continue
        s = sum([b[i] for b in hist])
        st = c.tab(lambda v: steady(v, m, thr), s)
        add = clip(c, c.tab(lambda v: evidence(v, m), s), lim)
        c.check('unsteady bits are left alone', c.Implies(c.Not(st), c.close(y[i], keep[i])))
        c.check('steady bits get the model evidence', c.Implies(st, c.close(y[i], keep[i] + add)))
        c.check('evidence points to the learned value', c.Implies(c.And(st, s == m), y[i] <= keep[i] + 1e-6))
        c.check('evidence points to the learned value', c.Implies(c.And(st, s == 0), y[i] >= keep[i] - 1e-6))


def flipping(c, thr, m, L, fixed=0):
    ad = Adapter(c, 'flipping', L, None, thr=thr)
    hist = history(c, m, L, fixed)
    for b in hist:
        ad.update(b)
    x = c.bits('x', N)
    keep = x.copy()
    y = ad.d.model_prediction(x)
    c.check('the observation is not changed', c.same(x, keep))
    c.check('one value per code bit', y.shape == (N,))
    for i in range(N):
        if i >= L or m < 1:
            c.check('other bits are left alone', y[i] == keep[i])
            continue
        s = sum([b[i] for b in hist])
        st = c.tab(lambda v: steady(v, m, thr), s)
        c.check('unsteady bits are left alone', c.Implies(c.Not(st), y[i] == keep[i]))
        c.check('steady bits take the learned value', c.Implies(st, y[i] == c.b2i(2 * s > m)))


def wait(c, kind, least, w=None):
    """a model learned from too few buffers is not used"""
    ad = Adapter(c, kind, 2, w, thr=0.9)
    ad.d.min_data = least
    x = observe(c) if kind == 'entropy' else c.bits('x', N)
    for i in range(4):
        y = ad.d.model_prediction(x)
        if (i if w is None else min(i, w)) < least or i == 0:
            c.check('too few buffers: nothing is rectified', c.close(y, x))
        else:
            c.check('enough buffers: steady bits are rectified', c.Implies(c.And(abs(x[0]) > 0.25, abs(x[1]) > 0.25), c.Not(c.close(y, x))) if kind == 'entropy'
                    else c.And(y[0] == 1, y[1] == 0))
        ad.update(np.array([1, 0]))


def given(c, kind, L, r):
    """a given model may describe fewer or more bits than the decoder models"""
    ps = [c.int('p%d' % i, 0, 4) for i in range(r)]
    model = np.array([[1 - p / 4, p / 4] for p in ps])
    ad = Adapter(c, kind, L, None, model=model, thr=0.5)
    k = min(L, r)
    if kind == 'entropy':
        x = observe(c)
        y = ad.d.model_prediction(x)
        lim = 2 * rmax(c, [x[i] for i in range(N)])
        for i in range(N):
            if i >= k:
                c.check('bits without a model are left alone', c.close(y[i], x[i]))
                continue
            st = c.Or(ps[i] == 0, ps[i] == 4)
            c.check('unsteady bits are left alone', c.Implies(c.Not(st), c.close(y[i], x[i])))
            c.check('steady bits get the model evidence', c.Implies(st, c.close(y[i], x[i] + clip(c, c.tab(lambda v: evidence(v, 4), ps[i]), lim))))
        return
    x = c.bits('x', N)
    y = ad.d.model_prediction(x)
    for i in range(N):
        if i >= k:
            c.check('bits without a model are left alone', y[i] == x[i])
            continue
        st = c.Or(ps[i] == 0, ps[i] == 4)
        c.check('unsteady bits are left alone', c.Implies(c.Not(st), y[i] == x[i]))
        c.check('steady bits take the model value', c.Implies(st, y[i] == c.b2i(ps[i] == 4)))


def weighted(c, scheme, ma, mb, thr, fixed=None):
    L = 2
    ca, sa, cb, sb = 1.0, 0.75, 2.0, 0.5
    em = c.mod('decoders.entropy_bitwise_decoder')
    d = em.EntropyBitwiseWeightedDecoder(dec.logspa(c, N, K), L, thr, 1.0, window_length=None, a_conf_center=ca, a_conf_slope=sa, b_conf_center=cb,
                                         b_conf_slope=sb, confidence=scheme)
    ha, hb = bufs(c, 'a', ma if fixed is None else fixed, L), bufs(c, 'b', mb if fixed is None else fixed, L)
    if fixed is not None:
        ha += [np.array([0, 1], dtype=np.int_)] * (ma - fixed)
        hb += [np.array([1, 0], dtype=np.int_)] * (mb - fixed)
    for b in ha:
        d.update_model_a(b)
    for b in hb:
        d.update_model_b(b)
    x = observe(c)
    keep = x.copy()
    y = d.model_prediction(x)
    c.check('the observation is not changed', c.close(x, keep))
    A, B = conf(ma, ca, sa), conf(mb, cb, sb)
    if scheme == 1 and A + B > 0:
        A, B = A * A / (A + B), B * B / (A + B)
    elif scheme == 2 and A + B > 0:
        A, B = 2 * A * A / (2 * A + B), B * B / (2 * A + B)
    elif scheme == 3:
        B = 0.0
    elif scheme == 5:
        A = 0.0
    lim = rmax(c, [keep[i] for i in range(N)])
    for i in range(N):
        if i >= L or (ma < 2 and mb < 2):
            c.check('other bits are left alone', c.close(y[i], keep[i]))
            continue
        na = sum([b[i] for b in ha]) if ha else 0
        nb = sum([b[i] for b in hb]) if hb else 0
        pa = c.tab(lambda v: ma > 0 and steady(v, ma, thr), na) if ha else False
        pb = c.tab(lambda v: mb > 0 and steady(v, mb, thr), nb) if hb else False
        if scheme == 4:
            # confidence is scaled by the spread of the models: judged by direction and range only
            c.check('unsteady bits are left alone', c.Implies(c.Not(c.Or(pa, pb)), c.close(y[i], keep[i])))
            c.check('evidence points to the learned value', c.Implies(c.And(pa, pb, na == ma, nb == mb), y[i] <= keep[i] + 1e-6))
            c.check('evidence points to the learned value', c.Implies(c.And(pa, pb, na == 0, nb == 0), y[i] >= keep[i] - 1e-6))
            c.check('within the clipping range', c.And(y[i] <= lim + 1e-6, y[i] >= 0 - lim - 1e-6))
            continue
        ea = c.If(pa, c.tab(lambda v: A * evidence(v, ma), na), 0.0) if ha and A > 0 else 0.0
        eb = c.If(pb, c.tab(lambda v: B * evidence(v, mb), nb), 0.0) if hb and B > 0 else 0.0
        c.check('weighted evidence of both models, clipped', c.close(y[i], clip(c, keep[i] + ea + eb, lim)))
    c.check('one value per code bit', y.shape == (N,))


def entropy_llr(c, ad, j=0):
    """the model's contribution as a full-length vector"""
    if ad.kind == 'classifying':
        y = ad.d.model_prediction(N, j)
        return [y[i] for i in range(N)]
    r = ad.d.entropy_model_prediction(j)
    if r is None:
        return [0.0] * N
    z = np.zeros(N)
    z[r[1]] += r[0]
    return [z[i] for i in range(N)]


def set_conf(ad, center=1.0, slope=0.75):
    ad.d.conf_center = center
    ad.d.conf_slope = slope


def expect(c, y, hist, L, thr, center=1.0, slope=0.75):
    m = len(hist)
    w = conf(m, center, slope)
    for i in range(N):
        if i >= L or m < 2:
            c.check('no evidence on other bits', c.close(y[i], 0.0))
            continue
        s = sum([b[i] for b in hist])
        st = c.tab(lambda v: steady(v, m, thr), s)
        c.check('no evidence on unsteady bits', c.Implies(c.Not(st), c.close(y[i], 0.0)))
        c.check('weighted evidence on steady bits', c.Implies(st, c.close(y[i], c.tab(lambda v: w * evidence(v, m), s))))


def model_llr(c, kind, thr, m, L, fixed=0):
    ad = Adapter(c, kind, L, None, thr=thr)
    set_conf(ad)
    hist = history(c, m, L, fixed)
    for b in hist:
        ad.update(b)
    expect(c, entropy_llr(c, ad), hist, L, thr)


def clusters(c, kind):
    """each cluster predicts from its own buffers only"""
    ad = Adapter(c, kind, 2, None, clusters=2, thr=0.9)
    set_conf(ad)
    hist = [bufs(c, 'a', 2, 2), bufs(c, 'b', 3, 2)]
    for j in (0, 1):
        for b in hist[j]:
            ad.update(b, j)
    for j in (0, 1):
        expect(c, entropy_llr(c, ad, j), hist[j], 2, 0.9)


def class_given(c, k):
    """a given model is fully trusted"""
    ps = [c.int('p%d' % i, 0, 4) for i in range(3)]
    ad = Adapter(c, 'classifying', 3, None, clusters=k, model=np.array([[1 - p / 4, p / 4] for p in ps]), thr=0.5)
    y = ad.d.model_prediction(N, c.choice('cluster', list(range(k))))
    for i in range(N):
        if i >= 3:
            c.check('no evidence on other bits', c.close(y[i], 0.0))
            continue
        st = c.Or(ps[i] == 0, ps[i] == 4)
        c.check('no evidence on unsteady bits', c.Implies(c.Not(st), c.close(y[i], 0.0)))
        c.check('full evidence on steady bits', c.Implies(st, c.close(y[i], c.tab(lambda v: evidence(v, 4), ps[i]))))
