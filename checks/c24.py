"""C24 MAVLink and combined decoders: cluster choice, decoder input, reported result, what is learned from which buffer."""
import numpy as np
from checks.lib import case, crc16
from checks import dec
from checks.c13 import H
from checks.c14 import conf, evidence, steady, rmax, clip
from checks.c15 import bits_of
from checks.c23 import KINDS, N, K, S, NAMES, make, prediction, observation

BOUNDS = dict(quick='codes of 88 bits carrying one frame; estimates with symbolic payload, checksum and parity, symbolic success flags, symbolic channel '
                    'values on selected bits; streams of 1..2 buffers (3 without rectification), 1..3 clusters, 1..5 attempts per buffer',
              thorough='streams of 3 buffers')
ASSUMPTIONS = ['the LDPC decoder is a stand-in that returns an arbitrary outcome (estimate, soft values, success flag)',
               'the code is systematic (information bits first)', 'the use of the field models is that of C23 (same code, checked there)']
THR = dict(vthr=0.5, ithr=0.2)


def cases(tier):
    th = tier == 'thorough'
    out = []
    for kind in KINDS:
        out.append(case('%s_first' % kind, 'stream', dict(kind=kind, m=1, k=1), cost=10, reach=['structure learned', 'no message', 'nothing learned']))
        out.append(case('%s_two' % kind, 'stream', dict(kind=kind, m=2, k=1), cost=60, reach=['structure learned', 'from the channel']))
        out.append(case('%s_turns' % kind, 'stream', dict(kind=kind, m=3 if not th else 4, k=2, free=(84,)), cost=60))
        out.append(case('%s_window' % kind, 'stream', dict(kind=kind, m=3, k=1, free=(84,), window=2, ok=True), cost=60))
        out.append(case('%s_training' % kind, 'training', dict(kind=kind, m=2), cost=10))
        out.append(case('%s_labels' % kind, 'labels', dict(kind=kind), cost=10))
        out.append(case('%s_given' % kind, 'given', dict(kind=kind), cost=20))
        if th:
            out.append(case('%s_three' % kind, 'stream', dict(kind=kind, m=3, k=1), cost=600, time_s=1500))
    for kind in ('combined', 'unified'):
        out.append(case('%s_short_model' % kind, 'stream', dict(kind=kind, m=2, k=1, L=72, free=(70, 75)), cost=20))
        out.append(case('%s_entropy' % kind, 'bitwise', dict(kind=kind), cost=20, reach=['evidence']))
    out.append(case('mavlink_attempts', 'attempts', dict(k=1), cost=30, reach=['second attempt', 'second attempt succeeds']))
    out.append(case('mavlink_attempts_turns', 'attempts', dict(k=2), cost=30, reach=['second attempt']))
    out.append(case('mavlink_attempts3', 'attempts', dict(k=2, iters=3), cost=40, reach=['second attempt', 'third attempt']))
    out.append(case('mavlink_attempts5', 'attempts', dict(k=2, iters=5, m=1), cost=40, reach=['second attempt', 'third attempt']))
    for kind in KINDS:
        out.append(case('%s_uneven' % kind, 'stream', dict(kind=kind, m=2, k=2, free=(84,), known=(1,)), cost=40))
        out.append(case('%s_uneven3' % kind, 'stream', dict(kind=kind, m=3, k=3, free=(84,), known=(0, 2), ok=(1,)), cost=40))
    return out


def frame(c, i, tail):
    """a frame of message 21 with a symbolic payload value and checksum"""
    p = c.int('pay%d' % i, 6, 7)
    ck = c.bytes('ck%d' % i, 2)
    c.assume(c.And(ck[0] != 254, ck[1] != 254))
    body = [2, 5, 1, 1, 21, p, 9]
    return bytes([254] + body + list(ck)), crc16(c, body + [159]) == ck[0] + 256 * ck[1]


class Side:
    """what should have been learned by one cluster"""

    def __init__(self):
        self.structure = None
        self.ents = []


def parts(kind, r):
    """uniform view of a result: estimate, llr, success, iterations, label"""
    return (r[0], r[1], r[2], r[3], r[6]) if kind == 'mavlink' else tuple(r[:5])


def stream(c, kind, m, k, free=(0, 55, 70), window=None, L=K, ok=False, known=()):
    valid = {}

    def est(i):
        buf, v = frame(c, i, 0)
        valid[i] = v
        return np.concatenate((bits_of(c, buf), c.bits('par%d' % i, N - K)))
    ld = dec.logspa(c, N, K, bits=est)
    d = make(c, kind, ld, k=k, L=L, window=window, **THR)
    twin = make(c, kind, dec.logspa(c, N, K), k=k, L=L, window=window, **THR)
    sides = [Side() for _ in range(k)]
    fields = {}
    size = 0
    if known:
        for q in (d, twin):
            q.set_buffer_structures([dict(S) if i in known else None for i in range(k)])
        for i in known:
            sides[i].structure = dict(S)
    for j in range(m):
        lab = j % k
        side = sides[lab]
        x = observation(c, free, 'x%d_' % j)
        keep = x.copy()
        r = d.decode_buffer(x, np.array([], dtype=np.int64))
        c.check('the channel word is not changed', c.close(x, keep))
        c.check('one attempt', len(ld.calls) == j + 1)
        want = prediction(twin, kind, keep.copy(), lab)[0]
        if kind != 'mavlink':
            want = with_evidence(c, want, keep, side.ents, L)
        c.check('what the channel decoder is given', c.close(ld.calls[j][0], want))
        o = ld.outcomes[j]
        e, llr, good, it, label = parts(kind, r)
        c.check('the outcome of the channel decoder is returned', c.And(c.same(e, o[0]), c.close(llr, o[1]), bool(good) == o[2], it == o[3], label == lab))
        if ok is True or ok and j in ok:
            c.assume(o[2])
        bits = o[0] if o[2] else np.array([c.b2i(keep[i] < 0) for i in range(N)])
        if o[2] and side.structure is None:
            side.structure = dict(S) if valid[j] else {}
            c.reach('structure learned', side.structure == S)
            c.reach('no message', side.structure == {})
        c.reach('nothing learned', side.structure is None)
        c.reach('from the channel', side.structure == S and not o[2])
        if side.structure is not None:
            size = size + 1 if window is None else min(size + 1, window)
            twin.model.add_buffer(bits, dict(side.structure))
            if side.structure:
                for q in range(8):
                    fields.setdefault(NAMES[q], []).append(sum([bits[8 * q + z] * (128 >> z) for z in range(8)]))
                    if window:
                        fields[NAMES[q]] = fields[NAMES[q]][-window:]
        twin.buffer_structures[lab] = None if side.structure is None else dict(side.structure)
        if kind != 'mavlink':
            side.ents.append(bits[:L])
            if window:
                side.ents = side.ents[-window:]
            twin.update_entropy_model(bits[:L], lab)
        check_learned(c, kind, d, sides, fields, size, L)


def with_evidence(c, y, x, ents, L):
    """steady bits get the (clipped) evidence of the bit model on top"""
    ne = len(ents)
    w = conf(ne, 2, 0.5)
    if w == 0:
        return y
    lim = 2 * rmax(c, [x[i] for i in range(N)])
    out = []
    for i in range(N):
        if i >= L:
            out.append(y[i])
            continue
        s = sum([b[i] for b in ents])
        ev = c.tab(lambda s: w * evidence(s, ne) if steady(s, ne, 0.5) else 0.0, s)
        out.append(y[i] + clip(c, ev, lim))
    return np.array(out)


def check_learned(c, kind, d, sides, fields, size, L=K):
    for j, side in enumerate(sides):
        got = d.buffer_structures[j]
        c.check('the structure of the first recovered buffer of a cluster is kept', got is None if side.structure is None else got == side.structure)
        if kind != 'mavlink':
            ne = len(side.ents)
            dist = d.distributions[j]
            c.check('the bit model of a cluster learns its buffers', dist.size == 0 if ne == 0 else dist.shape == (L, 2))
            if ne and dist.shape == (L, 2):
                c.check('the bit model of a cluster learns its buffers', c.close(dist[:, 1], np.array([sum([b[i] for b in side.ents]) / ne for i in range(L)])))
    c.check('exactly the fields of recovered structures are modelled', sorted(d.model.fields_names()) == sorted(fields))
    c.check('model size', d.model.model_size == size)
    for nm in fields:
        if nm in d.model:
            got = d.model[nm].samples
            c.check('field values of recovered buffers, else of the channel', c.And(len(got) == len(fields[nm]), *[u == v for u, v in zip(got, fields[nm])]))


def training(c, kind, m):
    """while the classifier is trained, buffers are decoded as received and nothing is learned"""
    def est(i):
        return np.concatenate((bits_of(c, frame(c, i, 0)[0]), c.bits('par%d' % i, N - K)))
    ld = dec.logspa(c, N, K, bits=est)
    d = make(c, kind, ld, k=2, cluster=True, **THR)
    for j in range(m):
        x = observation(c, (0, 55, 84), 'x%d_' % j)
        keep = x.copy()
        r = d.decode_buffer(x, np.array([], dtype=np.int64))
        c.check('the channel word is not changed', c.close(x, keep))
        c.check('the channel word is decoded as it is', c.close(ld.calls[j][0], keep))
        o = ld.outcomes[j]
        e, llr, good, it, label = parts(kind, r)
        c.check('the outcome of the channel decoder is returned', c.And(c.same(e, o[0]), c.close(llr, o[1]), bool(good) == o[2], it == o[3], label == -1))
        check_learned(c, kind, d, [Side(), Side()], {}, 0)


def labels(c, kind):
    """the structure and models of the cluster named by the classifier are used and updated"""
    def est(i):
        return np.concatenate((bits_of(c, frame(c, i, 0)[0]), c.bits('par%d' % i, N - K)))
    ld = dec.logspa(c, N, K, bits=est)
    d = make(c, kind, ld, k=2, cluster=True, **THR)
    lab = c.choice('label', [0, 1])
    seen = []

    def classify(b):
        seen.append(b.copy())
        return lab
    d.classifier.classify = classify
    d.set_buffer_structures([dict(S), dict(S)])
    x = observation(c, (0, 55, 84))
    keep = x.copy()
    r = d.decode_buffer(x, np.array([], dtype=np.int64))
    h = np.array([c.b2i(keep[i] < 0) for i in range(N)])
    c.check('the hard decisions of the model bits are classified, once', len(seen) == 1 and c.same(seen[0], h[:K]))
    c.check('label', parts(kind, r)[4] == lab)
    if kind != 'mavlink':
        c.check('the cluster learns, the other one does not', d.distributions[lab].shape == (K, 2) and d.distributions[1 - lab].size == 0)


def given(c, kind):
    """a given field model and structure are used but never learned over"""
    inf = c.mod('inference')

    def est(i):
        return np.concatenate((bits_of(c, frame(c, i, 0)[0]), c.bits('par%d' % i, N - K)))
    bm, bt = inf.BufferModel(), inf.BufferModel()
    for j in range(2):
        b = frame(c, 8 + j, 0)[0]
        for q in (bm, bt):
            q.add_buffer(b + b'\x00', dict(S))
    ld = dec.logspa(c, N, K, bits=est)
    d = make(c, kind, ld, bm, **THR)
    twin = make(c, kind, dec.logspa(c, N, K), bt, **THR)
    for q in (d, twin):
        q.set_buffer_structures([dict(S)])
    x = observation(c, (23, 70))
    keep = x.copy()
    d.decode_buffer(x, np.array([], dtype=np.int64))
    c.check('the given model is used', c.close(ld.calls[0][0], prediction(twin, kind, keep.copy(), 0)[0]))
    c.check('the given model is not changed', d.model is bm and bm.model_size == 2 and d.buffer_structures[0] == S)
    for nm in NAMES:
        c.check('the given model is not changed', c.And(len(bm[nm].samples) == 2, *[u == v for u, v in zip(bm[nm].samples, bt[nm].samples)]))


def bitwise(c, kind):
    """evidence of the bit model is added to what the field models say"""
    ld = dec.logspa(c, N, K, bits=lambda i: np.concatenate((np.zeros(K, dtype=np.int64), c.bits('par%d' % i, N - K))))
    d = make(c, kind, ld, **THR)
    ents = []
    for j in range(3):
        b = np.array([int(i % 5 == 1) for i in range(K)])
        for i in (3,):
            b[i] = c.int('b%d_%d' % (j, i), 0, 1)
        d.update_entropy_model(b, 0)
        ents.append(b)
    x = observation(c, (3, 6))
    keep = x.copy()
    d.decode_buffer(x, np.array([], dtype=np.int64))
    want = with_evidence(c, keep, keep, ents, K)
    got = ld.calls[0][0]
    c.check('evidence of steady bits is added, clipped', c.And(*[c.close(got[i], want[i]) for i in range(N)]))
    c.reach('evidence', c.Not(c.close(got[3], keep[3])))


def attempts(c, k, iters=2, m=None):
    """several attempts: each one goes on from the soft values of the last, until one succeeds"""
    def est(i):
        if k > 1:
            buf = bytes([254, 2, 5, 1, 1, 21, 6 + i % 2, 9, 3, 4 + i])
            return np.concatenate((bits_of(c, buf), c.bits('par%d' % i, N - K)))
        return np.concatenate((bits_of(c, frame(c, i, 0)[0]), c.bits('par%d' % i, N - K)))
    free = (0, 55) if k == 1 else (84,)
    ld = dec.logspa(c, N, K, bits=est, soft=lambda i: observation(c, free, 'soft%d_' % i))
    d = make(c, 'mavlink', ld, k=k, iters=iters, **THR)
    twin = make(c, 'mavlink', dec.logspa(c, N, K), k=k, **THR)
    hist = bytes([254, 2, 5, 1, 1, 21, 6, 9, 3, 4, 0]) if k > 1 else frame(c, 9, 0)[0] + b'\x00'
    for q in (d, twin):
        q.set_buffer_structures([dict(S) for _ in range(k)])
        q.model.add_buffer(hist, dict(S))
    for j in range(m or k):
        x = observation(c, (55, 84) if k == 1 else (84,), 'x%d_' % j)
        keep = x.copy()
        first = len(ld.calls)
        r = d.decode_buffer(x, np.array([], dtype=np.int64))
        o = ld.outcomes[first:]
        c.check('the channel word is not changed', c.close(x, keep))
        c.check('stops at the first success', len(o) <= iters and not any([a[2] for a in o[:-1]]) and (bool(o[-1][2]) or len(o) == iters))
        c.check('first attempt', c.close(ld.calls[first][0], prediction(twin, 'mavlink', keep.copy(), j)[0]))
        h = np.array([c.b2i(keep[i] < 0) for i in range(N)])
        for q, a in enumerate(o):
            if q:
                c.reach('second attempt')
                c.reach('second attempt succeeds', a[2])
                c.reach('third attempt', q == 2)
                c.check('an attempt goes on from the one before', c.close(ld.calls[first + q][0], prediction(twin, 'mavlink', o[q - 1][1].copy(), j)[0]))
            twin.model.add_buffer(a[0] if a[2] else h, dict(S))
        e, llr, good, it, label = parts('mavlink', r)
        a = o[-1]
        c.check('outcome of the last attempt', c.And(c.same(e, a[0]), c.close(llr, a[1]), bool(good) == a[2]))
        c.check('iterations of all attempts', it == sum([b[3] for b in o]))
        c.check('clusters take turns per buffer', label == j)
