"""C02 frame header construction, parsing, rejection."""
from checks.lib import case, popcount
from checks.c01 import payload_lengths

BOUNDS = dict(quick='msg_id in -3..300, sys/comp/seq in -2..260 (all four symbolic), every 6-byte buffer, forced ids -3..300')


def cases(tier):
    out = [case('construct', 'construct', {}, reach=['built', 'rejected']),
           case('parse', 'parse', dict(force=False), reach=['built', 'rejected']),
           case('parse_forced', 'parse', dict(force=True), reach=['built', 'rejected']),
           case('distance', 'distance', {}, optional=True, query_ms=20000)]
    out.append(case('distance_short', 'distance_short', {}))
    for n in (0, 5, 7, 9):
        out.append(case('bad_size_%d' % n, 'bad_size', dict(n=n)))
    return out


def built_ok(c, h, L, msg, sysid, comp, seq):
    ln = 0
    for i, l in L.items():
        ln = c.If(msg == i, l, ln)
    b = h.buffer
    c.observe('buffer', b)
    c.check('header is six bytes', len(b) == 6)
    c.check('wire layout marker,length,seq,sys,comp,id',
            c.And(b[0] == 254, b[1] == ln, b[2] == seq, b[3] == sysid, b[4] == comp, b[5] == msg))
    c.check('accessors return the fields', c.And(h.length == ln, h.sequence == seq, h.sys_id == sysid, h.comp_id == comp,
                                                 h.msg_id == msg))
    bs = h.bit_string
    c.check('bit string has 48 bits', len(bs) == 48)
    ok = True
    for i in range(48):
        ok = c.And(ok, c.Iff(bs[i], ((b[i // 8] >> (7 - i % 8)) & 1) == 1))
    c.check('bit string is the big-endian bits of the buffer', ok)


def known_id(c, L, msg):
    return c.Or(*[msg == i for i in L])


def construct(c):
    pm = c.mod('protocol_meta')
    exc = c.mod('utils.custom_exceptions')
    L = payload_lengths(c)
    msg, s, q, k = c.int('msg', -3, 300), c.int('sys', -2, 260), c.int('seq', -2, 260), c.int('comp', -2, 260)
    ok, h = c.attempt(pm.FrameHeader, msg, s, k, q)
    u8 = c.And(0 <= s, s <= 255, 0 <= q, q <= 255, 0 <= k, k <= 255)
    known = known_id(c, L, msg)
    c.check('accepted exactly when ids are uint8 and the message exists', c.Iff(ok, c.And(u8, known)))
    if ok:
        c.reach('built')
        built_ok(c, h, L, msg, s, k, q)
        h2 = pm.FrameHeader.from_buffer(h.buffer)
        c.check('parsing the built header gives it back', h2.buffer == h.buffer)
        c.check('a built header is valid', pm.is_valid_header(h.buffer))
    else:
        c.reach('rejected')
        inrange = c.And(0 <= msg, msg <= 255)
        if isinstance(h, pm.NonExistentMsdId):
            c.check('unknown id error only for unknown uint8 ids', c.And(c.Not(known), inrange))
        else:
            c.check('out of range values raise NonUint8', isinstance(h, exc.NonUint8))
            c.check('NonUint8 only for values out of range', c.Or(c.Not(u8), c.Not(inrange)))


def parse(c, force):
    pm = c.mod('protocol_meta')
    L = payload_lengths(c)
    buf = c.bytes('b', 6)
    f = c.int('force', -3, 300) if force else None
    msg = f if force else buf[5]
    ok, h = c.attempt(pm.FrameHeader.from_buffer, buf, f)
    c.check('parsed exactly when the message id exists', c.Iff(ok, known_id(c, L, msg)))
    if ok:
        c.reach('built')
        built_ok(c, h, L, msg, buf[3], buf[4], buf[2])
        if not force:
            c.check('valid headers survive the round trip', c.Iff(pm.is_valid_header(buf), h.buffer == buf))
    else:
        c.reach('rejected')
        hd = c.mod('protocol_meta.msg_header')
        c.check('rejection is a documented error', isinstance(h, (hd.NonExistentMsdId, c.mod('utils.custom_exceptions').NonUint8)))


def distance(c):
    pm = c.mod('protocol_meta')
    L = payload_lengths(c)
    msg = c.choice('msg', [0, 33, 212, 234])
    s, q, k = c.byte('sys'), c.byte('seq'), c.byte('comp')
    h = pm.FrameHeader(msg, s, k, q)
    o = c.bytes('o', 6)
    want = sum([((x ^ y) >> i) & 1 for x, y in zip([254, L[msg], q, s, k, msg], o) for i in range(8)])
    d = h.hamming_distance(o)
    c.observe('d', d)
    c.check('distance counts differing header bits', d == want)


def distance_short(c):
    """all but two bytes fixed"""
    pm = c.mod('protocol_meta')
    L = payload_lengths(c)
    msg = c.choice('msg', [0, 33, 212, 234])
    i = c.choice('pos', list(range(6)))
    h = pm.FrameHeader(msg, 7, 9, 200)
    o = [1, 2, 3, 4, 5, 6]
    o[i] = c.byte('x')
    want = sum([((x ^ y) >> i) & 1 for x, y in zip([254, L[msg], 200, 7, 9, msg], o) for i in range(8)])
    d = h.hamming_distance(bytes(o))
    c.observe('d', d)
    c.check('distance counts differing header bits', d == want)


def bad_size(c, n):
    hd = c.mod('protocol_meta.msg_header')
    buf = c.bytes('b', n)
    ok, e = c.attempt(hd.FrameHeader.from_buffer, buf)
    c.check('wrong size is rejected by parsing', not ok and isinstance(e, hd.HeaderLength))
    ok, e = c.attempt(hd.hamming_distance_2_valid_header, buf)
    c.check('wrong size is rejected by the nearest search', not ok and isinstance(e, hd.HeaderLength))
    h = hd.FrameHeader(33, 1, 1, 1)
    ok, e = c.attempt(h.hamming_distance, buf)
    c.check('wrong size is rejected by the distance', not ok and isinstance(e, hd.HeaderLength))
