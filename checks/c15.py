"""C15 what the entropy decoders return, and from which buffers they learn."""
import numpy as np
from checks.lib import case, crc16
from checks import dec
from checks.c13 import H

BOUNDS = dict(quick='codes of 88 bits carrying one frame of message 21 or 10-byte buffers with trailing bytes; estimates with symbolic payload, '
                    'checksum and parity bits, symbolic success flags; streams of 1..2 buffers, symbolic channel values on selected bits',
              thorough='streams of 3 buffers')
ASSUMPTIONS = ['the LDPC decoder is a stand-in that returns an arbitrary outcome (estimate, soft values, success flag)',
               'the code is systematic (information bits first)']
FREE = (0, 1, 50, 70, 84)


def cases(tier):
    out = []
    for kind in ('entropy', 'flipping', 'weighted'):
        out.append(case('%s_one' % kind, 'stream', dict(kind=kind, m=1, tail=0, pre=2), cost=10, reach=['learned', 'not learned', 'second try', 'rectified with a model']))
        out.append(case('%s_tail' % kind, 'stream', dict(kind=kind, m=1, tail=1, pre=0), cost=10, reach=['message but not all parsed']))
        if tier == 'thorough' or kind != 'weighted':
            out.append(case('%s_two' % kind, 'stream', dict(kind=kind, m=2, tail=0, pre=0), cost=60, reach=['rectified with a model']))
        if tier == 'thorough':
            out.append(case('%s_three' % kind, 'stream', dict(kind=kind, m=3, tail=0, pre=0), cost=600, time_s=1500))
    return out


def frame(c, i, tail):
    """a frame of message 21 with a symbolic payload byte and checksum, then trailing bytes"""
    p = c.byte('pay%d' % i)
    ck = c.bytes('ck%d' % i, 2)
    c.assume(c.And(p != 254, ck[0] != 254, ck[1] != 254))
    body = [2, 5, 1, 1, 21, p, 9]
    v = crc16(c, body + [159]) == ck[0] + 256 * ck[1]
    return bytes([254] + body + list(ck) + [17] * tail), v


def make(c, kind, L, ld):
    em = c.mod('decoders.entropy_bitwise_decoder')
    if kind == 'entropy':
        return em.EntropyBitwiseDecoder(ld, L, 0.5, 2, 1)
    if kind == 'flipping':
        return em.EntropyBitwiseFlippingDecoder(ld, L, 0.5, 1)
    return em.EntropyBitwiseWeightedDecoder(ld, L, 0.5, 2.0, a_conf_center=1, a_conf_slope=0.5, b_conf_center=1, b_conf_slope=0.5)


def bits_of(c, buf):
    return np.unpackbits(np.frombuffer(buf, dtype=np.uint8)).astype(np.int64)


def check_model(c, tag, dist, hist, L):
    if not hist:
        c.check(tag + 'nothing is learned from unrecovered buffers', dist.size == 0)
        return
    c.check(tag + 'learned model has the right size', dist.shape == (L, 2))
    if dist.shape != (L, 2):
        return
    k = len(hist)
    c.check(tag + 'the model is learned from the recovered buffers', c.close(dist[:, 1], np.array([sum([b[i] for b in hist]) / k for i in range(L)])))


def stream(c, kind, m, tail, pre):
    L = 80 + 8 * tail
    n = L + 8
    valid = {}

    def est(i):
        buf, v = frame(c, i, tail)
        valid[i] = v
        return np.concatenate((bits_of(c, buf), c.bits('par%d' % i, n - L)))

    ld = dec.logspa(c, n, L, bits=est)
    d = make(c, kind, L, ld)
    twin = make(c, kind, L, dec.logspa(c, n, L))
    good, every = [], []
    for j in range(pre):
        b = np.array([int(i % 4 == 1) for i in range(L)])
        b[3] = c.int('pre%d' % j, 0, 1)
        good.append(b)
        every.append(b)
        for q in (d, twin):
            if kind == 'weighted':
                q.update_model_a(b)
                q.update_model_b(b)
            else:
                q.update_model(b)
    for j in range(m):
        x = np.array([1.5 if i % 3 else -1.0 for i in range(n)]) if kind != 'flipping' else np.array([i % 3 == 0 for i in range(n)]).astype(np.int64)
        for i in FREE:
            x[i] = c.real('x%d_%d' % (j, i), -6.0, 6.0, [-2.0, 1.0]) if kind != 'flipping' else c.int('x%d_%d' % (j, i), 0, 1)
        keep = x.copy()
        first = len(ld.calls)
        r = d.decode_buffer(x)
        c.check('the channel word is not changed', c.close(x, keep))
        ncalls = len(ld.calls) - first
        c.check('the channel word is decoded first', c.close(ld.calls[first][0], keep))
        ok = ld.outcomes[first][2]
        c.check('a failed buffer is tried once more, a decoded one is not', ncalls == (1 if ok else 2))
        if not ok:
            c.reach('second try')
            want = twin.model_prediction(keep.copy())
            c.check('the second try uses the rectified word', c.close(ld.calls[first + 1][0], want))
            c.reach('rectified with a model', c.Not(c.close(want, keep)))
        o = ld.outcomes[-1]
        v = valid[len(ld.outcomes) - 1]
        c.check('the estimate of the last attempt is returned', c.same(r[0], o[0]))
        c.check('the soft values of the last attempt are returned', c.close(r[1], o[1]))
        c.check('success is that of the last attempt', bool(r[2]) == o[2])
        c.check('iterations of the last attempt', r[3] == o[3])
        nm = r[4] if kind != 'weighted' else r[6]
        mb = o[0][:L]
        found = True if v else False
        c.check('number of messages in the returned buffer', nm == (1 if found else 0))
        full = found and tail == 0
        c.reach('message but not all parsed', found and tail > 0)
        c.reach('learned', full)
        c.reach('not learned', not full)
        if full:
            good.append(mb)
        if kind == 'weighted':
            if ok or full:
                every.append(mb)
            else:
                every.append(np.array(keep < 0, dtype=np.int64)[:L])
            check_model(c, 'good model: ', d.a_distribution, good, L)
            check_model(c, 'any model: ', d.b_distribution, every, L)
            c.check('the learned models are returned', c.same(r[7], d.a_distribution) and c.same(r[8], d.b_distribution))
            if full:
                twin.update_model_a(mb)
            twin.update_model_b(every[-1])
        else:
            check_model(c, '', d.distribution, good, L)
            if full:
                twin.update_model(mb)
