"""C08 protocol metadata agrees with the wire format; per-message field report of a buffer."""
from checks.lib import case, crc16
from checks.c07 import wire_fields, SIZE, decode_field, frame

BOUNDS = dict(quick='every message id 0..255 (symbolic), every message of the dialect; field reports of buffers with one to four frames, '
                    'all payload bytes and the checksum symbolic')


def cases(tier):
    out = [case('lengths', 'lengths', {})]
    for k in range(4):
        out.append(case('fields_%d' % k, 'fields', dict(k=k)))
    for m in (218, 234, 33, 24):
        out.append(case('report_%d' % m, 'report', dict(msgs=[m]), cost=20, reach=['reported', 'nothing found']))
    out.append(case('report_two', 'report', dict(msgs=[218, 0]), cost=30, reach=['reported', 'nothing found']))
    for i, ms in enumerate([[0, 0], [218, 234, 0], [33, 0, 33], [0, 218, 0, 218]] if tier == 'quick' else
                           [[0, 0], [218, 234, 0], [33, 0, 33], [0, 218, 0, 218], [212, 218, 33, 234], [0, 0, 0, 0, 0]]):
        out.append(case('report_more_%d' % i, 'report', dict(msgs=ms), cost=60, reach=['reported', 'nothing found']))
    for i in (24, 1, 2, 32, 105, 109) if tier == 'quick' else (24, 1, 2, 4, 20, 22, 30, 32, 36, 65, 74, 87, 105, 109, 125, 147, 230):
        out.append(case('report_msg_%d' % i, 'report', dict(msgs=[i]), cost=20, optional=True))
    out.append(case('report_none', 'report_none', dict(n=10)))
    return out


def lengths(c):
    d = c.mod('mavlink_utils.HC_dialect')
    pm = c.mod('protocol_meta')
    meta = pm.dialect_meta
    i = c.int('id', 0, 255)
    want = -1
    for m, cls in d.mavlink_map.items():
        want = c.If(i == m, cls.unpacker.size, want)
    got = -1
    for m, l in meta.msgs_payload_length.items():
        got = c.If(i == m, l, got)
    c.check('payload length of every message is its wire length', got == want)
    c.check('a message is known exactly when the dialect has it', c.Iff(i in meta.msgs_payload_length, i in d.mavlink_map))
    c.check('overhead', meta.protocol_overhead == 8 and meta.header_len == 6 and meta.crc_len == 2 and meta.stx == 254)


def fields(c, k):
    d = c.mod('mavlink_utils.HC_dialect')
    pm = c.mod('protocol_meta')
    ids = sorted(d.mavlink_map)[k::4]
    for m in ids:
        want = wire_fields(d.mavlink_map[m])
        got = pm.dialect_meta.msgs_fields[m]
        c.check('field names and types in wire order', [tuple(x) for x in got] == [tuple(x) for x in want])


def report(c, msgs):
    d = c.mod('mavlink_utils.HC_dialect')
    inf = c.mod('inference')
    pm = c.mod('protocol_meta')
    items = []
    frames = []
    for j, m in enumerate(msgs):
        cls = d.mavlink_map[m]
        l = cls.unpacker.size
        pay = list(c.bytes('p%d' % j, l))
        for p in pay:
            c.assume(p != 254)
        pos = 0
        for name, t in wire_fields(cls):
            if t == 'float':
                c.assume(c.Not(c.And(pay[pos + 2] >= 128, c.Or(pay[pos + 3] == 127, pay[pos + 3] == 255))))
            pos = pos + SIZE[t]
        fr = frame(c, m, cls, pay, [j + 1, 1, 1])
        e = c.byte('e%d' % j)
        hit = c.And(e == 0)
        fr = fr[:-1] + [fr[-1] ^ e]
        for p in fr[-2:]:
            c.assume(p != 254)
        frames.append((m, cls, pay, fr, hit))
        items = items + fr
    buf = bytes(items)
    seg = inf.BufferSegmentation(pm.dialect_meta.protocol_parser)
    res = seg.get_msg_fields(buf)
    c.check('a pair is returned', isinstance(res, tuple) and len(res) == 2)
    got, desc = res
    wf = []
    wd = []
    for m, cls, pay, fr, hit in frames:
        if hit:
            wd.append(('hdr', fr[:6]))
            pos = 0
            for name, t in wire_fields(cls):
                key = cls.name + '_' + name
                wf.append((key, t, pay[pos:pos + SIZE[t]]))
                wd.append((key, t))
                pos = pos + SIZE[t]
            wd.append('crc')
    c.check('every field of every message is reported, nothing else', sorted(got) == sorted(set([k for k, _, _ in wf])))
    # of several frames of one message the last one is reported
    for k, t, b in {x[0]: x for x in wf}.values():
        if k in got:
            v, ty = got[k]
            c.check('field type', ty == t)
            if t != 'float':
                c.check('field value', v == decode_field(c, t, b))
    c.check('description has header, fields and checksum per message', len(desc) == len(wd))
    if len(desc) == len(wd):
        for x, w in zip(desc, wd):
            if isinstance(w, tuple) and w[0] == 'hdr':
                c.check('header bytes of the message', c.And(len(x) == 6, *[p == q for p, q in zip(list(x), w[1])]))
            else:
                c.check('description entry', x == w)
    c.reach('reported', len(wf) > 0)
    c.reach('nothing found', len(wf) == 0)


def report_none(c, n):
    inf = c.mod('inference')
    pm = c.mod('protocol_meta')
    b = list(c.bytes('b', n))
    for x in b:
        c.assume(x != 254)
    seg = inf.BufferSegmentation(pm.dialect_meta.protocol_parser)
    res = seg.get_msg_fields(bytes(b))
    c.check('empty report for a buffer without messages', isinstance(res, tuple) and len(res) == 2 and not res[0] and not res[1])
