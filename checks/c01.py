"""C01 header validity predicate and nearest valid header."""
from checks.lib import case, popcount

BOUNDS = dict(quick='validity: every 6-byte header, buffers of other lengths up to 12. Nearest header: every length and id byte with the right marker, '
                    'every marker and length byte for selected id bytes; no limit, six limits for 13 id bytes, every limit 0..300 for one id byte, repeated searches '
                    '(sequence, system and component bytes always symbolic)',
              thorough='nearest header: every marker, length and id byte; six limits for every id byte, every limit 0..300 for six id bytes')


def cases(tier):
    out = [case('valid_header', 'valid_header', {}, reach=['valid', 'invalid'])]
    for n in (0, 1, 5, 7, 12):
        out.append(case('wrong_len_%d' % n, 'wrong_len', dict(n=n)))
    T = tier == 'thorough'
    for k in range(16):
        out.append(case('nearest_nolimit_%d' % k, 'nearest', dict(ids=[16 * k], low=4, limit='none', b0=254), cost=9))
    for b0 in (0, 255, 26) if T else (0,):
        for k in range(8):
            out.append(case('nearest_lost_marker_%d_%d' % (b0, k), 'nearest', dict(ids=[5 + 33 * k], limit='none', b0=b0), cost=2))
    out.append(case('nearest_any_marker', 'nearest', dict(ids=[33], limit='none'), cost=9))
    ids = list(range(256)) if T else list(range(0, 256, 25)) + [33, 234]
    for k in range(8):
        out.append(case('nearest_somelimit_%d' % k, 'nearest', dict(ids=ids[k::8], limit='some', b0=254), cost=5))
    for i in ([0, 33, 101, 212, 234, 255] if T else [33]):
        for lo, hi in ((0, 12), (13, 24), (25, 40), (41, 60), (61, 120), (121, 300)):
            out.append(case('nearest_anylimit_%d_%d..%d' % (i, lo, hi), 'nearest', dict(ids=[i], limit='any', lo=lo, hi=hi, b0=254), cost=9))
    for i in (33, 212):
        for mx in (0, 9, 60):
            out.append(case('nearest_again_%d_%d' % (i, mx), 'again', dict(i=i, mx=mx), cost=4))
    if T:
        for k in range(32):
            out.append(case('nearest_all_%d' % k, 'nearest', dict(ids=list(range(256))[k::32], limit='none'), cost=20))
    return out


def payload_lengths(c):
    """wire payload length of every message, from the dialect's own packing format"""
    d = c.mod('mavlink_utils.HC_dialect')
    return {i: m.unpacker.size for i, m in d.mavlink_map.items()}


def valid_header(c):
    pm = c.mod('protocol_meta')
    buf = c.bytes('b', 6)
    r = pm.is_valid_header(buf)
    L = payload_lengths(c)
    exp = c.And(buf[0] == 254, c.Or(*[c.And(buf[5] == i, buf[1] == l) for i, l in L.items()]))
    c.observe('r', r)
    c.check('valid iff marker, known id and matching length', c.Iff(r, exp))
    c.reach('valid', exp)
    c.reach('invalid', c.Not(exp))


def wrong_len(c, n):
    pm = c.mod('protocol_meta')
    buf = c.bytes('b', n)
    r = pm.is_valid_header(buf)
    c.check('wrong size is never a header', c.Not(r))


def nearest(c, ids, limit, lo=0, hi=300, low=0, b0=None, b1=None):
    # the id byte is split into concrete values (one path each); every other byte stays symbolic
    pm = c.mod('protocol_meta')
    b = c.bytes('b', 5)
    if b0 is not None:
        b = bytes([b0]) + b[1:]
    if b1 is not None:
        b = b[:1] + bytes([c.choice('b1', b1)]) + b[2:]
    buf = b + bytes([c.choice('id', ids) + (c.int('low', 0, 2 ** low - 1) if low else 0)])
    if limit == 'none':
        mx = None
    elif limit == 'some':
        mx = c.choice('max', [0, 3, 9, 28, 60, 254])
    else:
        mx = c.int('max_len', lo, hi)
    d, i = pm.hamming_distance_2_valid_header(buf, mx)
    c.observe('r', (d, i))
    judge(c, buf, mx, d, i)


def judge(c, buf, mx, d, i):
    L = payload_lengths(c)
    d0 = popcount(c, buf[0] ^ 254)
    some = False
    att = False
    for m, l in L.items():
        dm = d0 + popcount(c, buf[1] ^ l) + popcount(c, buf[5] ^ m)
        ok = True if mx is None else l <= mx
        some = c.Or(some, ok)
        c.check('no eligible header is closer', c.Implies(ok, d <= dm))
        att = c.Or(att, c.And(ok, i == m, d == dm))
    c.check('the distance is attained by the reported eligible message', c.Implies(some, att))
    c.check('no message is reported when none is eligible', c.Implies(c.Not(some), i == -1))


def again(c, i, mx):
    """searches do not influence each other: the same header without a limit, with one, and without again"""
    pm = c.mod('protocol_meta')
    buf = bytes([254, c.int('len', 0, 63)]) + c.bytes('b', 3) + bytes([i])
    for lim in (mx, None, 255, mx):
        d, j = pm.hamming_distance_2_valid_header(buf, lim)
        judge(c, buf, lim, d, j)
