"""C05 the undecoded parts reported for a buffer are exactly its maximal runs of unknown bytes."""
import numpy as np
from checks.lib import case, crc16

BOUNDS = dict(quick='every labelling of buffers of 0..9 bytes, block-wise labellings of up to 265 bytes, every byte content; streams with one or two frames',
              thorough='every labelling of buffers of 0..11 bytes')


def cases(tier):
    out = []
    for n in range(0, 10 if tier == 'quick' else 12):
        out.append(case('labels_%d' % n, 'labels', dict(n=n), cost=2 ** n))
    for i, sizes in enumerate([[1, 2, 9, 1, 16, 3, 33, 1], [70, 1, 1, 70], [8, 8, 8, 8, 8], [260, 4, 1]]):
        out.append(case('blocks_%d' % i, 'blocks', dict(sizes=sizes), cost=2 ** len(sizes)))
    out.append(case('after_scan_1', 'after_scan', dict(gaps=[2, 3]), cost=50, reach=['frame', 'no frame']))
    out.append(case('after_scan_2', 'after_scan', dict(gaps=[0, 2, 0]), cost=80, reach=['frame', 'no frame']))
    return out


def runs(parts, unknown):
    """maximal runs [start, end) of unknown bytes"""
    out = []
    start = -1
    for i in range(len(parts)):
        if parts[i] == unknown:
            if start < 0:
                start = i
        else:
            if start >= 0:
                out.append((start, i))
            start = -1
    if start >= 0:
        out.append((start, len(parts)))
    return out


def check_parts(c, inf, buf, parts):
    B = inf.BufferSegmentation
    want = runs(parts, inf.MsgParts.UNKNOWN)
    got = B.bad_buffer_parts(buf, parts)
    c.check('bad parts start exactly at the unknown runs', sorted(got) == [a for a, _ in want])
    for a, b in want:
        if a in got:
            c.check('bad part is the run itself', c.And(len(got[a]) == b - a, *[got[a][k] == buf[a + k] for k in range(min(b - a, len(got[a])))]))
    idx = B.bad_buffer_idx(buf, parts)
    if want:
        c.check('index pairs are the unknown runs', idx is not None and [tuple(p) for p in idx] == want)
    else:
        c.check('no index pairs for a fully decoded buffer', idx is None)


def labels(c, n):
    inf = c.mod('inference')
    P = inf.MsgParts
    buf = c.bytes('b', n)
    good = [P.HEADER, P.PAYLOAD, P.CHECKSUM]
    lab = []
    for i in range(n):
        if c.bool('unknown[%d]' % i):
            lab.append(P.UNKNOWN)
        else:
            lab.append(good[i % 3])
    parts = np.array(lab, dtype=object)
    check_parts(c, inf, buf, parts)


def blocks(c, sizes):
    """longer runs: each block is known or unknown as a whole"""
    inf = c.mod('inference')
    P = inf.MsgParts
    lab = []
    for i, s in enumerate(sizes):
        u = c.bool('unknown[%d]' % i)
        for j in range(s):
            lab.append(P.UNKNOWN if u else P.HEADER if j < 6 else P.PAYLOAD)
    buf = c.bytes('b', len(lab))
    check_parts(c, inf, buf, np.array(lab, dtype=object))


def after_scan(c, gaps):
    inf = c.mod('inference')
    pm = c.mod('protocol_meta')
    d = c.mod('mavlink_utils.HC_dialect')
    items = list(c.bytes('g0', gaps[0]))
    for k in range(len(gaps) - 1):
        m = [218, 0][k]
        l = d.mavlink_map[m].unpacker.size
        items = items + [254, l, 1, 1, 1, m] + [q + 1 for q in range(l)] + list(c.bytes('ck%d' % k, 2))
        items = items + list(c.bytes('g%d' % (k + 1), gaps[k + 1]))
    for nm in range(len(gaps)):
        for x in list(c.bytes('g%d' % nm, gaps[nm])):
            c.assume(x != 254)
    for k in range(len(gaps) - 1):
        for x in list(c.bytes('ck%d' % k, 2)):
            c.assume(x != 254)
    buf = bytes(items)
    seg = inf.BufferSegmentation(pm.dialect_meta.protocol_parser)
    parts, validity, structure = seg.segment_buffer(buf)
    check_parts(c, inf, buf, parts)
    cover = [0] * len(buf)
    for s, m in structure.items():
        for j in range(int(buf[s + 1]) + 8):
            cover[s + j] = cover[s + j] + 1
    for s, b in seg.bad_buffer_parts(buf, parts).items():
        for j in range(len(b)):
            cover[s + j] = cover[s + j] + 1
    c.check('frames and bad parts partition the buffer', all([x == 1 for x in cover]))
    c.reach('frame', len(structure) > 0)
    c.reach('no frame', len(structure) == 0)
