"""C27 sending and receiving frames as a stream."""
from checks.lib import case, crc16
from checks.c07 import frame

BOUNDS = dict(quick='streams of one or two frames with symbolic payload, ids and checksum, up to two symbolic bytes between and around them, right and '
                    'wrong length bytes; every cut into one, two or three chunks and byte by byte; up to 3 messages sent, any sequence number',
              thorough='more cuts, longer gaps')
ASSUMPTIONS = ['no byte of the stream in marker position is the marker of protocol version 2 (the dialect is version 1)']
OUTSIDE = 'signing, protocol version 2 frames'


def cases(tier):
    out = []
    T = tier != 'quick'
    for name, parts in (('frame', [['f', 21, 0]]), ('gap', [['g', 1], ['f', 21, 0], ['g', 1]]), ('two', [['f', 21, 0], ['f', 42, 0]]),
                        ('gap_two', [['f', 42, 0], ['g', 2], ['f', 21, 0]]), ('short_len', [['f', 21, -1], ['g', 1]]),
                        ('long_len', [['f', 42, 1], ['f', 21, 0]]), ('huge_len', [['f', 21, 200], ['f', 21, 0]]),
                        ('empty_len', [['f', 42, -2], ['f', 21, 0]])):
        for mode in ('once', 'cut', 'bytes', 'strict') + (('cut2',) if T or name in ('frame', 'gap') else ()):
            big = name == 'gap_two' and mode == 'cut'
            for q in range(4 if big else 1):
                out.append(case('%s_%s%s' % (name, mode, q if big else ''), 'stream', dict(parts=parts, mode=mode, q=q, of=4 if big else 1),
                                cost=30 if mode in ('cut', 'cut2') else 8,
                                reach=['message'] if name in ('frame', 'gap', 'two', 'gap_two') else ()))
    for n in (1, 2, 3):
        out.append(case('send_%d' % n, 'send', dict(n=n)))
    out.append(case('wrap', 'send', dict(n=2, seq=255)))
    return out


def build(c, d, parts):
    buf = []
    for k, p in enumerate(parts):
        if p[0] == 'g':
            g = list(c.bytes('g%d' % k, p[1]))
            c.assume(c.And(*[x != 253 for x in g]))
            buf = buf + g
        else:
            cls = d.mavlink_map[p[1]]
            pay = list(c.bytes('p%d' % k, cls.unpacker.size)) if p[2] == 0 else [9, 5][:cls.unpacker.size]
            c.assume(c.And(*[x != 253 for x in pay]))
            ids = [c.byte('q%d' % k) if p[2] == 0 else 3, 1, 7]
            c.assume(ids[0] != 253)
            f = frame(c, p[1], cls, pay, ids)
            e = c.byte('e%d' % k)                     # symbolic corruption of the checksum
            f[-1] = f[-1] ^ e
            c.assume(c.And(f[-1] != 253, f[-2] != 253))
            f[1] = f[1] + p[2]
            buf = buf + f
    return buf


def split(c, d, buf):
    """the items of a stream: (start, end, good); the rest is incomplete"""
    out = []
    p = 0
    sizes = {i: m.unpacker.size for i, m in d.mavlink_map.items()}
    extra = {i: m.crc_extra for i, m in d.mavlink_map.items()}
    while p < len(buf):
        if buf[p] != 254:
            out.append((p, p + 1, False))
            p = p + 1
            continue
        if p + 3 > len(buf):
            break
        L = None
        for v in range(256):
            if p + 8 + v <= len(buf) and buf[p + 1] == v:
                L = v
        if L is None:
            break
        good = False
        for i in sizes:
            if buf[p + 5] == i:
                crc = crc16(c, buf[p + 1:p + 6 + L] + [extra[i]])
                good = bool(c.And(buf[p + 6 + L] == (crc & 255), buf[p + 7 + L] == (crc >> 8)))
                break
        out.append((p, p + 8 + L, good))
        p = p + 8 + L
    return out, p


def stream(c, parts, mode, q=0, of=1):
    d = c.mod('mavlink_utils.HC_dialect')
    buf = build(c, d, parts)
    n = len(buf)
    want, done = split(c, d, buf)
    mav = d.MAVLink(None, srcSystem=0, srcComponent=0)
    calls = []
    mav.set_callback(lambda m: calls.append(m))
    mav.robust_parsing = mode != 'strict'
    if mode == 'once':
        cuts = [0, n]
    elif mode == 'cut':
        cuts = [0, c.choice('cut', list(range(1, n))[q::of]), n]
    elif mode == 'cut2':
        a = c.choice('cut', list(range(1, n - 1)))
        cuts = [0, a, c.choice('cut2', [x for x in range(2, n) if x > a]) if a < n - 1 else n, n]
    else:
        cuts = list(range(n + 1))
    got = []
    errors = 0
    for a, b in zip(cuts, cuts[1:]):
        if mode == 'strict':
            ok, m = c.attempt(mav.parse_char, bytes(buf[a:b]))
            if not ok:
                c.check('only the protocol error is raised', isinstance(m, d.MAVError))
                errors = errors + 1
            elif m is not None:
                got.append(m)
        else:
            r = mav.parse_buffer(bytes(buf[a:b]))
            if r is not None:
                got = got + list(r)
        need = mav.bytes_needed()
        inc = [s for s, e, g in want if s < b < e]
        if inc:
            s, e, g = [w for w in want if w[0] == inc[0]][0]
            c.check('the bytes asked for do not reach beyond the frame', c.And(need >= 1, need <= e - b))
    items = [w for w in want if w[2]] if mode == 'strict' else want
    c.check('as many items as the stream holds', len(got) == len(items))
    for m, (s, e, g) in zip(got, items):
        c.check('bad data is reported as such and nothing else', (m.get_type() != 'BAD_DATA') == g)
        raw = list(m.get_msgbuf())
        c.check('every byte is delivered once and in order', c.And(len(raw) == e - s, *[x == y for x, y in zip(raw, buf[s:e])]))
        if g:
            c.check('ids of the message', c.And(m.get_msgId() == buf[s + 5], m.get_seq() == buf[s + 2], m.get_srcSystem() == buf[s + 3],
                                                m.get_srcComponent() == buf[s + 4]))
            c.reach('message')
    c.check('one callback per item', len(calls) == len(got) and all([x is y for x, y in zip(calls, got)]))
    c.check('bytes are counted', mav.total_bytes_received == n)
    if mode != 'strict':
        c.check('errors are counted', mav.total_receive_errors == len([w for w in want if not w[2]]))
        c.check('received items are counted', mav.total_packets_received == len(want))
    c.observe('types', [m.get_type() for m in got])


class File:
    def __init__(self):
        self.data = []

    def write(self, b):
        self.data.append(list(b))


def send(c, n, seq=None):
    d = c.mod('mavlink_utils.HC_dialect')
    out = File()
    s, k = c.byte('sys'), c.byte('comp')
    mav = d.MAVLink(out, s, k)
    q = c.byte('seq') if seq is None else seq
    mav.seq = q
    calls = []
    mav.set_send_callback(lambda m: calls.append(m.get_msgId()))
    frames = []
    seqs = [q]
    for j in range(n):
        seqs.append((seqs[-1] + 1) % 256)
    for j in range(n):
        v = c.byte('v%d' % j)
        w = c.byte('w%d' % j)
        now = seqs[j]
        if j == 0:
            mav.param_request_list_send(v, w)
            frames.append(frame(c, 21, d.mavlink_map[21], [v, w], [now, s, k]))
        elif j == 1:
            mav.mission_current_send(v + 256 * w)
            frames.append(frame(c, 42, d.mavlink_map[42], [v, w], [now, s, k]))
        else:
            mav.send(d.MAVLink_mission_ack_message(v, w, 3))
            frames.append(frame(c, 47, d.mavlink_map[47], [v, w, 3], [now, s, k]))
    c.check('one write per message', len(out.data) == n)
    for a, b in zip(out.data, frames):
        c.check('frames are written as packed, with consecutive sequence numbers', c.And(len(a) == len(b), *[x == y for x, y in zip(a, b)]))
    c.check('sequence goes on modulo 256', mav.seq == seqs[n])
    c.check('sent packets and bytes are counted', mav.total_packets_sent == n and mav.total_bytes_sent == sum([len(f) for f in frames]))
    c.check('one callback per message', calls == [21, 42, 47][:n])
    rx = d.MAVLink(None)
    rx.robust_parsing = True
    got = rx.parse_buffer(bytes(sum(frames, [])))
    c.check('a receiver gets every message sent', c.And(len(got) == n, *[m.get_msgId() == i for m, i in zip(got, [21, 42, 47])],
                                                        *[m.get_seq() == seqs[j] for j, m in enumerate(got)]))
