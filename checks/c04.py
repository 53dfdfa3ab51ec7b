"""C04 segmentation: a byte range is reported as a message exactly when it is a CRC-valid frame."""
from checks.lib import case, crc16
import numpy as np

BOUNDS = dict(quick='every buffer of 0 and 7..10 bytes (all bytes symbolic, every message that fits); frames of 18 messages (the '
                    'longest and shortest among them) and two-frame streams with symbolic header ids, up to 6 symbolic payload '
                    'bytes, symbolic checksums and symbolic gap bytes; every message of the dialect with any checksum; runs of '
                    'four and five frames (repeated messages included), each with any checksum; three calls on one segmenter',
              thorough='every buffer of 6..12 bytes; longer streams, all payload bytes symbolic')
OUTSIDE = 'longer fully symbolic buffers'
ASSUMPTIONS = ['message table (ids, payload sizes, crc_extra) is read from the generated dialect']



def cases(tier):
    out = []
    for n in (0, 7, 8, 9, 10) if tier == 'quick' else (0, 6, 7, 8, 9, 10, 11, 12):
        out.append(case('any_%d' % n, 'any_buffer', dict(n=n), cost=n * n))
    T = 'quick' != tier
    for m in (33, 212, 218, 234):
        out.append(case('frame_%d' % m, 'stream', dict(msgs=[m], gaps=[0, 0], k=6 if not T else 99), cost=60,
                        reach=['all found', 'none found']))
        out.append(case('frame_gap_%d' % m, 'stream', dict(msgs=[m], gaps=[1, 1], k=2), cost=60))
        out.append(case('truncated_%d' % m, 'truncated', dict(m=m), cost=40))
    out.append(case('two_212_33', 'stream', dict(msgs=[212, 33], gaps=[0, 0, 0], k=3), cost=80))
    out.append(case('two_gap_218_234', 'stream', dict(msgs=[218, 234], gaps=[0, 2, 0], k=3), cost=80))
    out.append(case('array_msg', 'stream', dict(msgs=[221], gaps=[0, 0], k=2), cost=80))
    for o in range(1, 8) if not T else range(1, 12):
        out.append(case('nested_%d' % o, 'nested', dict(m=0, o=o, tail=2 if not T else 12, few=not T), cost=50,
                        reach=['frame after a bogus header']))
    # every message of the dialect: alone, and after a good frame on the same segmenter
    for i in (0, 131, 142, 64, 238, 63, 123, 25, 146, 120, 220, 21, 42, 245):
        out.append(case('msg_%d' % i, 'stream', dict(msgs=[i], gaps=[0, 0], k=1), cost=30, optional=True))
    for k in range(8):
        out.append(case('each_msg_%d' % k, 'each', dict(k=k, of=8), cost=100))
    out.append(case('four', 'frames', dict(msgs=[30, 33, 30, 0], gaps=[0, 1, 0, 2, 0]), cost=90, reach=['all found', 'none found']))
    out.append(case('five_same', 'frames', dict(msgs=[42] * 5, gaps=[0] * 6), cost=90, reach=['all found', 'none found']))
    out.append(case('hc_stream', 'frames', dict(msgs=[33, 234, 218, 212], gaps=[0, 0, 0, 0, 3]), cost=90, reach=['all found']))
    for m1, m2 in ((30, 30), (0, 42), (42, 0)) if not T else ((30, 30), (0, 42), (42, 0), (33, 33), (212, 218), (64, 131)):
        out.append(case('again_%d_%d' % (m1, m2), 'again', dict(m1=m1, m2=m2), cost=60))
    out.append(case('hdr_212', 'header_sym', dict(m=212), cost=60))
    return out


def table(c):
    d = c.mod('mavlink_utils.HC_dialect')
    return {i: (m.unpacker.size, m.crc_extra) for i, m in d.mavlink_map.items()}


def valid_at(c, T, buf, i):
    """formula: a CRC-valid frame starts at byte i and fits the buffer"""
    n = len(buf)
    if not buf[i] == 254:
        return False
    alts = []
    by_len = {}
    for m, (l, x) in T.items():
        if i + 8 + l <= n and not c.is_false(buf[i + 1] == l) and not c.is_false(buf[i + 5] == m):
            by_len.setdefault(l, []).append((m, x))
    for l, ms in by_len.items():
        base = crc16(c, buf[i + 1:i + 6 + l])
        got = buf[i + 6 + l] + 256 * buf[i + 7 + l]
        for m, x in ms:
            cond = c.And(buf[i + 5] == m, buf[i + 1] == l)
            from checks.lib import crc_step
            alts.append(c.And(cond, crc_step(c, base, x) == got))
    return c.And(buf[i] == 254, c.Or(*alts)) if alts else False


def seg_check(c, buf, T, seg=None):
    inf = c.mod('inference')
    pm = c.mod('protocol_meta')
    n = len(buf)
    if seg is None:
        seg = inf.BufferSegmentation(pm.dialect_meta.protocol_parser)
    parts, validity, structure = seg.segment_buffer(buf)
    P = inf.MsgParts
    c.observe('structure', structure)
    c.observe('validity', validity)
    c.check('one label per byte', len(parts) == n)
    c.check('one validity per bit', len(validity) == 8 * n)
    exp = [P.UNKNOWN] * n
    i = 0
    seen = []
    while i + 8 <= n:
        found = i in structure
        c.check('a message is reported at a byte exactly when a CRC-valid frame starts there',
                c.Iff(found, valid_at(c, T, buf, i)))
        if found:
            m = structure[i]
            c.check('reported id is the id byte of the frame', m == buf[i + 5])
            l = int(buf[i + 1])
            if i + 8 + l > n:
                break
            seen.append(i)
            for j in range(6):
                exp[i + j] = P.HEADER
            for j in range(l):
                exp[i + 6 + j] = P.PAYLOAD
            exp[i + 6 + l] = exp[i + 7 + l] = P.CHECKSUM
            i = i + 8 + l
        else:
            i = i + 1
    c.check('no other message is reported', sorted(structure) == seen)
    c.check('byte labels match the frames', all([parts[j] == exp[j] for j in range(n)]))
    c.check('bits are marked valid exactly inside frames',
            c.And(*[validity[8 * j + k] == (0 if exp[j] == P.UNKNOWN else 1) for j in range(n) for k in range(8)]))
    bs = seg.get_buffer_structure(buf)
    c.check('structure object carries the same messages', bs.structure == structure)
    c.check('structure length is the number of messages', len(bs) == len(seen))
    return seen, structure


def any_buffer(c, n):
    T = table(c)
    buf = c.bytes('b', n)
    seen, _ = seg_check(c, buf, T)


def stream(c, msgs, gaps, k):
    """frames with symbolic sequence/system ids, k symbolic payload bytes, symbolic checksum, symbolic gap bytes"""
    T = table(c)
    items = list(c.bytes('g0', gaps[0]))
    for g in items:
        c.assume(g != 254)
    starts = []
    for j, m in enumerate(msgs):
        l, x = T[m]
        starts.append(len(items))
        s = min(k, l)
        pay = list(c.bytes('p%d' % j, s)) + [0x11 * (1 + q % 9) for q in range(l - s)]
        for p in pay[:s]:
            c.assume(p != 254)
        ids = list(c.bytes('h%d' % j, 3))
        ck = list(c.bytes('c%d' % j, 2))
        for p in ids + ck:
            c.assume(p != 254)
        g = list(c.bytes('g%d' % (j + 1), gaps[j + 1]))
        for p in g:
            c.assume(p != 254)
        items = items + [254, l] + ids + [m] + pay + ck + g
    buf = bytes(items)
    seen, _ = seg_check(c, buf, T)
    c.check('frames only start at their marker', all([s in starts for s in seen]))
    c.reach('all found', seen == starts)
    c.reach('none found', seen == [])


def each(c, k, of):
    """each message of the dialect in a frame of its own; its checksum is right or damaged in any way"""
    T = table(c)
    ids = sorted(T)[k::of]
    m = c.choice('m', ids)
    seg_check(c, bytes(one(c, T, m, '', q=1)), T)


def one(c, T, m, name, q=None):
    """a frame with a symbolic sequence number and a checksum that is right or (symbolically) wrong"""
    l, x = T[m]
    if q is None:
        q = c.byte('q' + name)
        c.assume(q != 254)
    fr = [l, q, 1, 1, m] + [(11 * i + 3) % 251 for i in range(l)]
    d = c.int('d' + name, 0, 0xffff)
    crc = crc16(c, fr + [x]) ^ d
    ck = [crc & 255, crc >> 8]
    for p in ck:
        c.assume(p != 254)
    return [254] + fr + ck


def frames(c, msgs, gaps):
    """a run of frames of concrete payload, each of which may have a damaged checksum"""
    T = table(c)
    items = list(c.bytes('g0', gaps[0]))
    starts = []
    for j, m in enumerate(msgs):
        starts.append(len(items))
        items = items + one(c, T, m, str(j)) + [17] * gaps[j + 1]
    seen, _ = seg_check(c, bytes(items), T)
    c.check('frames only start at their marker', all([s in starts for s in seen]))
    c.reach('all found', seen == starts)
    c.reach('none found', seen == [])


def again(c, m1, m2):
    """a second buffer through the same segmenter is judged on its own bytes"""
    T = table(c)
    inf, pm = c.mod('inference'), c.mod('protocol_meta')
    seg = inf.BufferSegmentation(pm.dialect_meta.protocol_parser)
    n = 8 + max(T[m1][0], T[m2][0])
    b1, b2 = one(c, T, m1, 'a'), one(c, T, m2, 'b')
    b1, b2 = b1 + [9] * (n - len(b1)), b2 + [9] * (n - len(b2))
    s1, st1 = seg_check(c, bytes(b1), T, seg)
    s1, st1 = list(s1), dict(st1)
    seg_check(c, bytes(b2), T, seg)
    s3, st3 = seg_check(c, bytes(b1), T, seg)
    c.check('the same buffer gives the same answer again', s3 == s1 and st3 == st1)


def header_sym(c, m):
    """a frame whose length and id bytes are symbolic too"""
    T = table(c)
    l, x = T[m]
    pay = [3 * q % 250 for q in range(l)]
    L, M = c.byte('len'), c.byte('id')
    ck = list(c.bytes('ck', 2))
    for p in ck + [L, M]:
        c.assume(p != 254)
    buf = bytes([254, L, 7, 1, 1, M] + pay + ck)
    seg_check(c, buf, T)


def truncated(c, m):
    """a valid frame cut anywhere before its end is never reported"""
    T = table(c)
    l, x = T[m]
    full = [254, l, 9, 1, 1, m] + [(7 * q + 3) % 250 for q in range(l)]
    crc = crc16(c, full[1:] + [x])
    full = full + [crc & 255, crc >> 8]
    cut = c.choice('cut', list(range(1, l + 9)))
    tail = list(c.bytes('t', 2))
    for p in tail:
        c.assume(p != 254)
    buf = bytes(full[:len(full) - cut] + tail[:1])
    if cut == 1:
        c.assume(tail[0] != crc >> 8)
    seen, st = seg_check(c, buf, T)
    c.check('truncated frame is not reported', seen == [])


def nested(c, m, o, tail, few):
    """a valid frame that starts inside what looks like another frame"""
    T = table(c)
    l, x = T[m]
    pre = list(c.bytes('pre', o - 1))
    ids = list(c.bytes('h', 3))
    ck = list(c.bytes('ck', 2))
    for p in pre + ids + ck:
        c.assume(p != 254)
    if o >= 2:
        c.assume(pre[0] <= 22)
    if o >= 6 and few:
        c.assume(c.Or(pre[4] == 0, pre[4] == 2, pre[4] == 230))
    items = [254] + pre + [254, l] + ids + [m] + [(5 * q + 1) % 250 for q in range(l)] + ck + [7] * tail
    buf = bytes(items)
    seen, _ = seg_check(c, buf, T)
    c.reach('frame after a bogus header', o in seen and 0 not in seen)
