"""C20 the turbo decoder: what the two decoders tell each other, when it stops, what is returned."""
import numpy as np
from checks.lib import case
from checks import dec

BOUNDS = dict(quick='words of 4 bits (and 12), all channel values and soft outputs symbolic, 1..4 rounds (and 8), every sequence of successes and failures, 0, 2 or 4 error positions, two words one after the other',
              thorough='words of 6 bits, up to 6 rounds')
ASSUMPTIONS = ['both component decoders are stand-ins that return an arbitrary outcome; the first one overwrites the word it is given']


def cases(tier):
    n = 6 if tier == 'thorough' else 4
    out = []
    for r in (1, 2, 3, 4) + ((6,) if tier == 'thorough' else ()):
        out.append(case('rounds_%d' % r, 'rounds', dict(r=r, n=n, debug=False), cost=10 * r, reach=['first', 'second', 'both fail']))
        out.append(case('debug_%d' % r, 'rounds', dict(r=r, n=n, debug=True), cost=15 * r, reach=['first', 'second', 'both fail']))
    out.append(case('rounds_8', 'rounds', dict(r=8, n=4, debug=True), cost=80, reach=['first', 'second', 'both fail']))
    out.append(case('wide', 'rounds', dict(r=2, n=12, debug=True), cost=80, reach=['first', 'second', 'both fail']))
    out.append(case('errors', 'rounds', dict(r=1, n=4, debug=True, ne=4), cost=80))
    out.append(case('no_errors', 'rounds', dict(r=1, n=4, debug=True, ne=0), cost=80))
    out.append(case('again', 'again', dict(n=3), cost=80))
    return out


def first_decoder(c, n):
    dm = c.mod('decoders.decoder')

    class First(dm.Decoder):
        def __init__(self):
            super().__init__(dm.DecoderType.ENTROPY)
            self.calls = []
            self.outcomes = []

        def decode_buffer(self, word):
            i = len(self.calls)
            self.calls.append(np.array(word))
            word[:] = 77.0
            out = (c.bits('est%d' % i, n), c.reals('soft%d' % i, n, -8.0, 8.0, [-3.0, 1.5]), c.choice('first%d_ok' % i, [False, True]), 4, 0)
            self.outcomes.append(out)
            return out
    return First()


def rounds(c, r, n, debug, ne=2):
    t = c.mod('decoders.turbo')
    first = first_decoder(c, n)
    second = dec.logspa(c, n, n - 2)
    d = t.TurboDecoder(first, second, r, debug)
    decode(c, d, first, second, r, n, debug, ne)


def again(c, n):
    """nothing is carried over from one word to the next"""
    t = c.mod('decoders.turbo')
    first = first_decoder(c, n)
    second = dec.logspa(c, n, n - 1)
    d = t.TurboDecoder(first, second, 1, True)
    for j in range(2):
        decode(c, d, first, second, 1, n, True, 1, 'w%d_' % j)


def decode(c, d, first, second, r, n, debug, ne, tag=''):
    x = c.reals(tag + 'x', n, -6.0, 6.0, [-2.0, 1.0])
    keep = x.copy()
    f0, s0 = len(first.calls), len(second.calls)
    e = [c.int('%se%d' % (tag, i), 0, n - 1) for i in range(ne)]
    err = np.array(e, dtype=np.int64)
    res = d.decode_buffer(x, err)
    c.check('the channel word is not changed', c.close(x, keep))
    prior = np.zeros(n)
    for i in range(r):
        c.check('the first decoder is asked', len(first.calls) > f0 + i)
        c.check('the first decoder gets the channel word and what the second one learned', c.close(first.calls[f0 + i], keep + prior))
        e1, l1, ok1 = first.outcomes[f0 + i][:3]
        if ok1:
            c.reach('first')
            c.check('stops at the first success', len(first.calls) - f0 == i + 1 and len(second.calls) - s0 == i)
            c.check('outcome of the first decoder', c.And(c.same(res[0], e1), c.close(res[1], l1), bool(res[2]), res[3] == 1, res[4] == 0))
            return
        c.check('the second decoder is asked', len(second.calls) > s0 + i)
        ext = l1 - keep - prior
        c.check('the second decoder gets the channel word and what the first one learned', c.close(second.calls[s0 + i][0], keep + ext))
        e2, l2, ok2 = second.outcomes[s0 + i][:3]
        if ok2:
            c.reach('second')
            c.check('stops at the first success', len(first.calls) - f0 == i + 1 and len(second.calls) - s0 == i + 1)
            c.check('outcome of the second decoder', c.And(c.same(res[0], e2), c.close(res[1], l2), bool(res[2]), res[3] == 2, res[4] == 0))
            return
        prior = l2 - keep - ext
    c.reach('both fail')
    c.check('no more rounds than allowed', len(first.calls) - f0 == r and len(second.calls) - s0 == r)
    c.check('outcome of the last attempt', c.And(c.same(res[0], e2), c.close(res[1], l2), not res[2], res[3] == 2))
    wrong = 0
    for i in range(n):
        sent = c.If(c.Or(*[v == i for v in e]) if e else False, 1 - c.b2i(keep[i] < 0), c.b2i(keep[i] < 0))
        wrong = wrong + c.b2i(sent != e2[i])
    c.check('number of bits still wrong, when debugging', res[4] == (wrong if debug else 0))
