"""C23 how the MAVLink decoders use field models: plausible fields are strengthened, implausible ones weakened or forced, found messages trusted."""
import math
import numpy as np
from checks.lib import case, crc16
from checks import dec
from checks.c13 import H
from checks.c14 import conf, rmax

BOUNDS = dict(quick='codes of 88 bits with a 10-byte frame; field models of 0..3 buffers with symbolic sequence and payload values, observations with '
                    'symbolic values on bits of the marker, the header, the payload, the checksum and the parity; learned and given models, '
                    'one or two clusters; buffers of two messages (168 bits) with three symbolic channel values',
              thorough='field models of up to 4 buffers, more symbolic bits')
ASSUMPTIONS = ['the LDPC decoder is a stand-in; the code is systematic (information bits first)',
               'probabilities of the Gaussian field models are tabulated for the bounded field values']
N, K = 88, 80
S = {0: 21}
NAMES = ['magic', 'PARAM_REQUEST_LIST_mlen', 'seq', 'srcSystem', 'PARAM_REQUEST_LIST_srcComponent', 'PARAM_REQUEST_LIST_msgId',
         'PARAM_REQUEST_LIST_target_system', 'PARAM_REQUEST_LIST_target_component']
BODY = [2, 5, 1, 1, 21, 6, 9]
KINDS = ('mavlink', 'combined', 'unified')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for kind in KINDS:
        out.append(case('%s_unknown_structure' % kind, 'unknown', dict(kind=kind), cost=2))
        for m in (1, 2) + ((3,) if th else ()):
            for given in (False, True):
                t = '%s_%s_m%d' % (kind, 'given' if given else 'learned', m)
                out.append(case(t, 'predict', dict(kind=kind, m=m, given=given, ent=3, thr=(0.5, 0.2), free=[0, 23, 55, 70, 84] if not th else [0, 7, 23, 55, 70, 84]),
                                cost=40 * m, reach=['message found', 'forced'] + ([] if kind == 'unified' and given else ['not forced']) + (['good'] if m > 1 and kind != 'unified' else [])))
        out.append(case('%s_overlap' % kind, 'predict', dict(kind=kind, m=2, given=True, ent=3, thr=(0.9, 0.6), free=[23, 55, 70]), cost=40))
        out.append(case('%s_repair' % kind, 'repair', dict(kind=kind), cost=20, reach=['repaired']))
        out.append(case('%s_partial' % kind, 'partial', dict(kind=kind), cost=20))
        out.append(case('%s_cluster' % kind, 'cluster', dict(kind=kind), cost=10))
        for m in (1, 2):
            for given in (False, True):
                out.append(case('%s_pair_%s_m%d' % (kind, 'given' if given else 'learned', m), 'pair', dict(kind=kind, m=m, given=given), cost=40,
                                reach=['one of two', 'both'] + (['repaired one'] if kind != 'unified' and given and m == 1 else [])))
    for flip in (False, True):
        for ent in (1, 2, 3):
            out.append(case('unified_flip%d_ent%d' % (flip, ent), 'predict', dict(kind='unified', m=2, given=True, ent=ent, thr=(0.5, 0.2), free=[23, 55], flip=flip),
                            cost=20))
    return out


def frame_bits(c, body):
    v = crc16(c, body + [159])
    return np.unpackbits(np.array([254] + body + [v & 255, v >> 8], dtype=np.uint8)).astype(np.int64)


def make(c, kind, ld, model=None, k=1, L=K, flip=False, **kw):
    if kind == 'mavlink':
        m = c.mod('decoders.mavlink_decoder')
        return m.MavlinkRectifyingDecoder(ld, L, kw['vthr'], kw['ithr'], k, 1.5, 0.25, 3, cluster=kw.get('cluster', False), data_model=model,
                                          window_length=kw.get('window'), conf_center=2, conf_slope=0.5, debug=kw.get('debug', False),
                                          segmentation_iterations=kw.get('iters', 1))
    if kind == 'combined':
        m = c.mod('decoders.combined_decoder')
        return m.CombinedDecoder(ld, L, kw['vthr'], kw['ithr'], k, 1.5, 0.25, 0.5, 2.0, 3, cluster=kw.get('cluster', False), data_model=model,
                                 window_length=kw.get('window'), conf_center=2, conf_slope=0.5, debug=kw.get('debug', False))
    m = c.mod('decoders.combined_unified_decoder')
    return m.CombinedUnifiedDecoder(ld, L, kw['vthr'], kw['ithr'], k, 1.5, 0.25, 0.5, 2.0, 3, cluster=kw.get('cluster', False), data_model=model,
                                    window_length=kw.get('window'), conf_center=2, conf_slope=0.5, debug=kw.get('debug', False), flip=flip)


def prediction(d, kind, x, j=0):
    return d.model_prediction(x, j) if kind == 'mavlink' else d.mavlink_model_prediction(x, j)


def prob_of(values, v):
    """how plausible a field value is after the given ones; None without data"""
    m = sum(values) / len(values)
    sd = math.sqrt(sum([(u - m) ** 2 for u in values]) / len(values))
    if sd <= 0:
        return 1.0 if v == m else 0.0
    return 1 - math.erf(abs(m - v) / sd / math.sqrt(2))


def fixed(values):
    return len(set(values)) == 1


def history(c, m):
    """m training frames: sequence number and first payload byte vary"""
    out = []
    for j in range(m):
        b = [254] + list(BODY)
        b[2] = c.int('seq%d' % j, 4, 6)
        b[6] = c.int('pay%d' % j, 6, 7)
        out.append(b)
    return out


def frame_of(c, b):
    """bits of a buffer with fields b; its checksum does not matter for the field models"""
    bits = []
    for v in b + [0, 0]:
        bits += [(v >> (7 - q)) & 1 for q in range(8)]
    return np.array(bits + [0] * (N - K))


def observation(c, free, tag='x', body=None, scale=1.0):
    """channel values around the frame with the given body: values of the free bits are symbolic"""
    bits = frame_bits(c, body or BODY)
    x = np.array([1.0 if i >= K or bits[i] == 0 else -1.25 for i in range(N)])
    for i in free:
        x[i] = c.real('%s%d' % (tag, i), -4.0, 4.0, [-2.0, 0.5])
    return x


def byte(c, h, k):
    return sum([h[8 * k + q] * (128 >> q) for q in range(8)])


def found(c, h):
    """the hard decisions h are a message"""
    v = [byte(c, h, k) for k in range(10)]
    ck = crc16(c, v[1:8] + [159])
    return c.And(v[0] == 254, v[1] == 2, v[5] == 21, v[8] + 256 * v[9] == ck)


def hard(c, x):
    return [c.b2i(x[i] < 0) for i in range(N)]


def expected(c, kind, x, hist, given, thr, ents, known=None, flip=False):
    """(rectified values, per field: plausibility > , < , forced)"""
    h = hard(c, x)
    m = len(hist)
    w = conf(m, 2, 0.5)
    vf, iv = (1.5, 0.25) if given else (0.5 * w + 1, -0.75 * w + 1)
    fields = []
    for k in range(8):
        vals = [b[k] for b in hist]
        v = byte(c, h, k)
        if known is not None and k not in known:
            fields.append((False, False, False, 0))
            continue
        good = c.tab(lambda v, *vs: prob_of(vs, v) > 1 - thr[0], v, *vals)
        bad = c.tab(lambda v, *vs: prob_of(vs, v) < thr[1], v, *vals)
        if kind == 'unified' and given:
            forced = c.tab(lambda *vs: fixed(vs), *vals)
        else:
            forced = c.tab(lambda v, *vs: fixed(vs) and v != vs[0], v, *vals)
        fields.append((good, bad, forced, vals[0]))
    y = [x[i] for i in range(N)]
    top = rmax(c, y) * max(vf, 1)
    for i in range(64):
        good, bad, forced, val = fields[i // 8]
        if kind == 'unified':
            ne = len(ents)
            if ne > 2:
                s = sum([b[i] for b in ents])
                steady = c.tab(lambda s: H(s / ne) < 0.5, s)
                maj = c.tab(lambda s: 2 * s > ne, s)
                good = c.And(good, steady)
                bad = c.And(bad, steady, c.Iff(maj, h[i] == 0))
            else:
                good = bad = False
        f = c.If(good, vf, 1.0)
        y[i] = y[i] * f
        y[i] = y[i] * c.If(bad, -iv if flip else iv, 1.0)
        bit = (val >> (7 - i % 8)) & 1
        y[i] = c.If(forced, c.If(bit == 1, -top, top), y[i])
    v1 = found(c, h)
    v2 = found(c, [c.b2i(v < 0) for v in y])
    out = []
    for i in range(N):
        out.append(c.If(v1, x[i] * 2 * vf, c.If(v2, y[i] * 2, y[i])) if i < K else y[i])
    return out, fields, v1, v2


def judge(c, kind, r, x, hist, given, thr, ents, known=None, flip=False):
    want, fields, v1, v2 = expected(c, kind, x, hist, given, thr, ents, known, flip)
    c.check('rectified values', c.And(len(r[0]) == N, *[c.close(r[0][i], want[i]) for i in range(N)]))
    c.check('plausible fields', c.And(*[c.Iff(k in r[3], fields[k][0]) for k in range(8)]))
    c.check('implausible fields', c.And(*[c.Iff(k in r[4], fields[k][1]) for k in range(8)]))
    c.check('number of fields', r[5] == 8)
    fo = [int(i) for i in r[6]]
    c.check('forced bits', c.And(all([i < 64 for i in fo]), *[c.Iff(i in fo, fields[i // 8][2]) for i in range(64)]))
    c.check('bits of found messages', c.And(len(r[7]) == N, *[c.Iff(r[7][i], c.And(c.Or(v1, v2), i < K)) for i in (0, 40, 79, 80, 87)]))
    c.reach('message found', v1)
    c.reach('forced', c.Or(*[f[2] for f in fields]))
    c.reach('not forced', c.Not(c.Or(*[f[2] for f in fields])))
    c.reach('good', c.Or(*[f[0] for f in fields]))
    return v1, v2


def build(c, kind, hist, given, thr, ent, flip=False, k=1):
    inf = c.mod('inference')
    ld = dec.logspa(c, N, K)
    bm = inf.BufferModel()
    for b in hist:
        bm.add_buffer(frame_of(c, b), dict(S))
    if given:
        d = make(c, kind, ld, bm, vthr=thr[0], ithr=thr[1], flip=flip, k=k)
    else:
        d = make(c, kind, ld, vthr=thr[0], ithr=thr[1], flip=flip, k=k)
        for b in hist:
            d.model.add_buffer(frame_of(c, b), dict(S))
    d.set_buffer_structures([dict(S)] * k)
    ents = []
    if kind == 'unified':
        for j in range(ent):
            b = frame_bits(c, BODY)
            for i in (23, 55):
                b[i] = c.int('ent%d_%d' % (j, i), 0, 1)
            d.update_entropy_model(b, 0)
            ents.append(b)
    return d, ents


def unknown(c, kind):
    d = make(c, kind, dec.logspa(c, N, K), vthr=0.5, ithr=0.2)
    x = observation(c, (0, 23, 84))
    keep = x.copy()
    r = prediction(d, kind, x)
    c.check('without a known structure nothing is changed', c.close(r[0], keep))
    c.check('without a known structure nothing is known', len(r[1]) == 0 and len(r[2]) == 0 and len(r[3]) == 0 and len(r[4]) == 0 and r[5] == 0 and len(r[6]) == 0)


def predict(c, kind, m, given, ent, thr, free, flip=False):
    hist = history(c, m)
    d, ents = build(c, kind, hist, given, thr, ent, flip)
    x = observation(c, free)
    keep = x.copy()
    r = prediction(d, kind, x)
    c.check('the observation is not changed', c.close(x, keep))
    judge(c, kind, r, keep, hist, given, thr, ents, None, flip)


def repair(c, kind):
    """forcing a constant field may complete a message"""
    thr = (0.5, 0.2)
    hist = [[254] + list(BODY) for _ in range(2)]
    d, ents = build(c, kind, hist, True, thr, 3)
    x = observation(c, (3, 8, 55))
    keep = x.copy()
    r = prediction(d, kind, x)
    v1, v2 = judge(c, kind, r, keep, hist, True, thr, ents)
    c.reach('repaired', c.And(c.Not(v1), v2))


def partial(c, kind):
    """a model that knows only some of the fields"""
    inf = c.mod('inference')
    thr = (0.5, 0.2)
    hist = history(c, 2)
    known = (0, 2, 7)
    bm = inf.BufferModel()
    for b in hist:
        for k in known:
            bm.add_sample(NAMES[k], b[k], 'uint8_t')
    d = make(c, kind, dec.logspa(c, N, K), bm, vthr=thr[0], ithr=thr[1])
    d.set_buffer_structures([dict(S)])
    x = observation(c, (0, 23, 55, 70))
    keep = x.copy()
    r = prediction(d, kind, x)
    judge(c, kind, r, keep, hist, True, thr, [], known)


def cluster(c, kind):
    """the structure of the named cluster is used"""
    thr = (0.5, 0.2)
    hist = history(c, 2)
    d, ents = build(c, kind, hist, True, thr, 0, k=2)
    d.set_buffer_structures([None, dict(S)])
    x = observation(c, (0, 55))
    keep = x.copy()
    r = prediction(d, kind, x, 0)
    c.check('without a known structure nothing is changed', c.close(r[0], keep))
    r = prediction(d, kind, keep.copy(), 1)
    judge(c, kind, r, keep, hist, True, thr, [])
    ok, e = c.attempt(d.set_buffer_structures, [dict(S)])
    c.check('one structure per cluster', not ok and isinstance(e, ValueError))


N2, K2 = 168, 160
S2 = {0: 21, 10: 21}


def pair(c, kind, m, given):
    """a buffer of two messages: each field by its own position, each found message by itself"""
    inf = c.mod('inference')
    thr = (0.5, 0.2)
    second = [2, 5, 1, 1, 21, 6, 8]
    hist = []
    for j in range(m):
        a, b = [254] + list(BODY), [254] + list(second)
        a[6] = 7 if j else c.int('pay%d' % j, 6, 7)
        hist.append((a, b))

    def learn(model):
        for a, b in hist:
            model.add_buffer(bytes(a + [0, 0] + b + [0, 0, 0]), dict(S2))
    bm = inf.BufferModel()
    learn(bm)
    d = make(c, kind, dec.logspa(c, N2, K2), bm if given else None, vthr=thr[0], ithr=thr[1], L=K2)
    if not given:
        learn(d.model)
    d.set_buffer_structures([dict(S2)])
    bits = np.concatenate((frame_bits(c, BODY), frame_bits(c, second)))
    x = np.array([1.0 if i >= K2 or bits[i] == 0 else -1.25 for i in range(N2)])
    for i in (55, 80 + 36, 80 + 70):
        x[i] = c.real('x%d' % i, -4.0, 4.0, [-2.0, 0.5])
    keep = x.copy()
    r = prediction(d, kind, x)
    c.check('the observation is not changed', c.close(x, keep))
    x = keep
    h = [c.b2i(x[i] < 0) for i in range(N2)]
    w = conf(m, 2, 0.5)
    vf, iv = (1.5, 0.25) if given else (0.5 * w + 1, -0.75 * w + 1)
    y = [x[i] for i in range(N2)]
    top = rmax(c, y) * max(vf, 1)
    fields = []
    for f in range(16):
        o = f // 8 * 80 + f % 8 * 8
        vals = [fr[f % 8] for row in hist for fr in row]
        v = sum([h[o + q] * (128 >> q) for q in range(8)])
        good = c.tab(lambda v, *vs: prob_of(vs, v) > 1 - thr[0], v, *vals)
        bad = c.tab(lambda v, *vs: prob_of(vs, v) < thr[1], v, *vals)
        if kind == 'unified' and given:
            forced = c.tab(lambda *vs: fixed(vs), *vals)
        else:
            forced = c.tab(lambda v, *vs: fixed(vs) and v != vs[0], v, *vals)
        fields.append((good, bad, forced))
        if kind == 'unified':
            good = bad = False                    # no bit model to agree with
        for q in range(8):
            u = y[o + q] * c.If(good, vf, 1.0) * c.If(bad, iv, 1.0)
            y[o + q] = c.If(forced, c.If((vals[0] >> (7 - q)) & 1 == 1, -top, top), u)
    v1 = [found(c, h[80 * k:80 * k + 80]) for k in (0, 1)]
    hy = [c.b2i(u < 0) for u in y]
    v2 = [found(c, hy[80 * k:80 * k + 80]) for k in (0, 1)]
    any1 = c.Or(*v1)
    for i in range(N2):
        k = i // 80
        want = y[i] if i >= K2 else c.If(any1, c.If(v1[k], x[i] * 2 * vf, y[i]), c.If(v2[k], y[i] * 2, y[i]))
        c.check('rectified values', c.close(r[0][i], want))
    c.check('plausible fields', c.And(*[c.Iff(k in r[3], fields[k][0]) for k in range(16)]))
    c.check('implausible fields', c.And(*[c.Iff(k in r[4], fields[k][1]) for k in range(16)]))
    c.check('number of fields', r[5] == 16)
    fo = [int(i) for i in r[6]]
    c.check('forced bits', c.And(*[c.Iff(i in fo, fields[i // 80 * 8 + i % 80 // 8][2] if i < K2 and i % 80 < 64 else False) for i in range(N2)]))
    c.check('bits of found messages', c.And(len(r[7]) == N2, *[c.Iff(r[7][i], c.If(any1, v1[i // 80], v2[i // 80]) if i < K2 else False) for i in (0, 79, 80, 159, 160, 167)]))
    c.reach('one of two', c.And(v1[0], c.Not(v1[1])))
    c.reach('both', c.And(*v1))
    c.reach('repaired one', c.And(c.Not(any1), v2[1], c.Not(v2[0])))
