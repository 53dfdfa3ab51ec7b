"""C25 debug analyses: confusion counts of damaged fields and forced bits; debugging does not change decoding."""
import numpy as np
from checks.lib import case, crc16
from checks import dec
from checks.c15 import bits_of
from checks.c23 import KINDS, N, K, S, make, observation

BOUNDS = dict(quick='index sets of up to 3 symbolic indices; codes of 88 bits carrying one frame of 8 fields (168 bits, two frames for field reports); 0..3 errors at symbolic places (all 88 bits), '
                    'received bits symbolic at forced places; debug on/off twins over 1..2 buffers',
              thorough='4 errors')
ASSUMPTIONS = ['the LDPC decoder is a stand-in that returns an arbitrary outcome', 'error indices are distinct (they are positions of a word)']
MODS = dict(mavlink='decoders.mavlink_decoder', combined='decoders.combined_decoder', unified='decoders.combined_unified_decoder')
FRAME = [254, 2, 5, 1, 1, 21, 6, 9, 3, 4]
THR = dict(vthr=0.5, ithr=0.2)


def cases(tier):
    th = tier == 'thorough'
    out = []
    for kind in KINDS:
        for a, b in ((0, 2), (2, 0), (2, 3), (3, 2)):
            out.append(case('%s_confusion_%d_%d' % (kind, a, b), 'confusion', dict(kind=kind, a=a, b=b), cost=5))
        for ne in (0, 1, 2) + ((3,) if th else ()):
            out.append(case('%s_fields_%d' % (kind, ne), 'fields', dict(kind=kind, ne=ne), cost=10 * ne, reach=['damaged', 'parity only'] if ne == 1 else ['same field twice'] if ne == 2 else []))
        for ne in (1, 2):
            out.append(case('%s_fields_pair_%d' % (kind, ne), 'fields', dict(kind=kind, ne=ne, pair=True), cost=10 * ne, reach=['damaged'] + (['two fields'] if ne == 2 else [])))
        for ne in (0, 1, 2, 3) + ((4,) if th else ()):
            out.append(case('%s_forced_%d' % (kind, ne), 'forced', dict(kind=kind, ne=ne), cost=10 * ne, reach=['flipped'] + (['flipped and wrong', 'flipped and right'] if ne else [])))
        out.append(case('%s_none_forced' % kind, 'forced', dict(kind=kind, ne=2, forced=[]), cost=5))
        out.append(case('%s_unknown' % kind, 'unknown', dict(kind=kind), cost=3))
        for m in (1, 2):
            out.append(case('%s_debug_%d' % (kind, m), 'debug', dict(kind=kind, m=m), cost=30 * m, reach=['judged'] if m == 2 and kind == 'mavlink' else []))
    return out


def places(c, name, n, hi, lo=0):
    """distinct ascending symbolic indices"""
    e = [c.int('%s%d' % (name, i), lo, hi - 1) for i in range(n)]
    for u, v in zip(e, e[1:]):
        c.assume(u < v)
    return e


def among(c, name, n, where):
    e = places(c, name, n, where[-1] + 1)
    for x in e:
        c.assume(c.Or(*[x == w for w in where]))
    return e


def iff(c, a, b):
    return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))


def arr(e):
    return np.array(e, dtype=np.int64)


def counts(c, pred, actual, negative):
    both = sum([c.b2i(c.Or(*[p == a for a in actual])) for p in pred]) if actual else 0
    return [both, len(pred) - both, negative - (len(pred) - both), len(actual) - both, len(actual), negative]


def same(c, got, want):
    return c.And(len(got) == len(want), *[g == w for g, w in zip(got, want)])


def confusion(c, kind, a, b):
    m = c.mod(MODS[kind])
    p, q = places(c, 'p', a, 6), places(c, 'a', b, 6)
    if a:
        p = p[1:] + p[:1]                # order does not matter
    neg = c.int('neg', 6, 20)
    for pred in (p, arr(p)):
        c.check('confusion counts', same(c, m.confusion(pred, arr(q), neg), counts(c, p, q, neg)))


def fields(c, kind, ne, pair=False):
    """errors hit fields: each field counts once, whatever the number of its wrong bits"""
    n, F = (168, 16) if pair else (N, 8)
    d = make(c, kind, dec.logspa(c, n, n - 8), k=2, L=n - 8, **THR)
    d.set_buffer_structures([None, {0: 21, 10: 21} if pair else dict(S)])
    e = places(c, 'e', ne, n) if ne < 2 else among(c, 'e', ne, [0, 7, 16, 63, 64, 80, 96, 103, 104, 160] if pair else [0, 7, 20, 23, 24, 63, 64, 87])
    marks = [c.choice('f%d' % f, ['good', 'bad', 'none'] if f == 2 else ['good', 'bad']) for f in (0, 2)]
    good = [f for f, w in zip((0, 2), marks) if w == 'good'] + [5]
    bad = [f for f, w in zip((0, 2), marks) if w == 'bad'] + [7]
    if pair:
        good, bad = good + [13], bad + [8, 10]
    got = d.classifier_analysis(good, bad, arr(e), F, 1)
    at = lambda f: f // 8 * 80 + f % 8 * 8
    hit = [c.Or(*[c.And(at(f) <= x, x < at(f) + 8) for x in e]) if e else False for f in range(F)]
    nd = sum([c.b2i(h) for h in hit])
    c.reach('damaged', nd == 1)
    c.reach('two fields', nd == 2)
    c.reach('parity only', nd == 0)
    c.reach('same field twice', nd == 1)
    if nd == 0:
        c.check('nothing to report without damaged fields', got == {})
        return
    if not got:
        c.check('damaged fields are reported', False)
        return
    c.check('number of fields', c.And(got['n_fields_in_buffer'] == F, got['n_damaged_fields_in_buffer'] == nd))

    def matrix(pred, positive):
        tp = sum([c.b2i(hit[f] if positive else c.Not(hit[f])) for f in pred])
        pos = nd if positive else F - nd
        neg = F - pos
        fp = len(pred) - tp
        return [tp, fp, neg - fp, pos - tp, pos, neg]
    c.check('bad fields against damaged ones', same(c, got['bad_fields_performance'], matrix(bad, True)))
    c.check('good fields against undamaged ones', same(c, got['good_fields_performance'], matrix(good, False)))


def forced(c, kind, ne, forced=(7, 23, 50)):
    d = make(c, kind, dec.logspa(c, N, K), k=2, **THR)
    d.set_buffer_structures([None, dict(S)])
    v = c.int('v', 32, 63)               # the constant value of field 6, bits 48..55
    buf = bytes(FRAME[:6] + [v] + FRAME[7:] + [0])
    for _ in range(2):
        d.model.add_buffer(buf, dict(S))
    model = bits_of(c, buf)
    rx = np.zeros(N, dtype=np.int64)
    free = sorted(set(forced) | {30, 84})
    for i in free:
        rx[i] = c.int('rx%d' % i, 0, 1)
    e = among(c, 'e', ne, [7, 22, 23, 50, 84])
    f = list(forced)
    got = d.forcing_analysis(arr(f), arr(e), rx, 1)
    err = {i: c.Or(*[x == i for x in e]) if e else False for i in f}
    flip = {i: model[i] != rx[i] for i in f}
    for i in f:
        c.reach('flipped', flip[i])
        c.reach('flipped and wrong', c.And(flip[i], err[i]))
        c.reach('flipped and right', c.And(flip[i], c.Not(err[i])))

    def matrix(sel):
        n = sum([c.b2i(sel(i)) for i in f])
        tp = sum([c.b2i(c.And(sel(i), err[i])) for i in f])
        return [tp, n - tp, N - ne - (n - tp), ne - tp, ne, N - ne]
    a, b = matrix(lambda i: True), matrix(lambda i: flip[i])
    c.check('forced bits against errors', same(c, got['bits_confusion_matrix'], a))
    c.check('flipped bits against errors', same(c, got['flipping_confusion_matrix'], b))
    nf = sum([c.b2i(flip[i]) for i in f])
    wrong = sum([c.b2i(c.Not(iff(c, flip[i], err[i]))) for i in f])
    q = [ne, len(f), nf, b[0], b[1], wrong / len(f) if f else 0]
    c.check('quality of forcing', c.close(got['forcing_quality'], np.array(q)))


def unknown(c, kind):
    d = make(c, kind, dec.logspa(c, N, K), k=2, **THR)
    e = places(c, 'e', 2, N)
    c.check('nothing is analysed without a structure', d.classifier_analysis([0], [1], arr(e), 8, 1) == {})
    c.check('nothing is analysed without a structure', d.forcing_analysis(arr([]), arr(e), np.zeros(N, dtype=np.int64), 1) == {})


def debug(c, kind, m):
    """debugging changes neither what is decoded nor what is learned; errors are only looked at"""
    def est(i):
        body = FRAME[1:6] + [6 + i, 9]
        v = crc16(c, body + [159])
        return np.concatenate((bits_of(c, bytes([254] + body + [v & 255, v >> 8])), c.bits('par%d' % i, N - K)))
    kw = dict(bits=est, soft=lambda i: observation(c, (84,), 'soft%d_' % i))
    ld = dec.logspa(c, N, K, **kw)
    d = make(c, kind, ld, debug=True, **THR)
    oks = []
    for j in range(m):
        x = observation(c, (23, 50) if j else (50,), 'x%d_' % j)
        e = arr(among(c, 'e%d_' % j, 1, [23, 50] if j else [63]))
        keep = x.copy()
        known = d.buffer_structures[0] is not None
        r = d.decode_buffer(x, e)
        o = ld.outcomes[j]
        oks.append((keep, o))
        c.check('errors are only looked at', c.And(c.close(x, keep), len(e) == 1))
        c.check('the outcome is returned', c.And(c.same(r[0], o[0]), c.close(r[1], o[1]), bool(r[2]) == o[2], r[3] == o[3]))
        if kind == 'mavlink':
            if not known:
                c.check('no fields were predicted, none are judged', r[10] == {})
            if not known and not o[2]:
                c.check('nothing is reported without a structure', r[11] == {})
            if known and d.buffer_structures[0]:
                c.reach('judged')
                c.check('field report', c.And(r[10]['n_damaged_fields_in_buffer'] == 1, r[10]['n_fields_in_buffer'] == 8,
                                              r[10]['bad_fields_performance'][0] + r[10]['bad_fields_performance'][3] == 1))
                c.check('bit report', c.And(r[11]['forcing_quality'][0] == 1, r[11]['bits_confusion_matrix'][4] == 1, r[11]['bits_confusion_matrix'][5] == N - 1))
    replay = iter([o for _, o in oks])

    class Same:
        info_idx, n, k = ld.info_idx, N, K
        calls = []

        def decode(self, w):
            self.calls.append(np.array(w))
            return next(replay)

        def info_bits(self, est):
            return est[self.info_idx]
    quiet = make(c, kind, Same(), **THR)
    for j, (x, o) in enumerate(oks):
        quiet.decode_buffer(x.copy(), arr([]))
        c.check('debugging does not change what is decoded', c.close(ld.calls[j][0], quiet.ldpc_decoder.calls[j]))
    c.check('debugging does not change what is learned', c.And(d.buffer_structures[0] == quiet.buffer_structures[0], d.model.model_size == quiet.model.model_size))
