"""C07 frame codec: packing and decoding are inverse; corrupted frames are rejected."""
import os
import xml.etree.ElementTree as ET
from array import array
from checks.lib import case, crc16

BOUNDS = dict(quick='17 scalar messages: all payload bytes and sequence/system/component ids symbolic; decoding, re-encoding, building from values; array messages; the whole message table; '
                    'frames of 18..27 bytes with every error pattern of 1..3 flipped bits in header ids, payload and checksum, '
                    'every single-burst pattern up to 16 bits, every wrong marker, length, id',
              thorough='every message of the dialect (up to 60 payload bytes)')
OUTSIDE = 'error patterns of four and more scattered bits (CRC-16 cannot exclude them); NaN payload floats'
ASSUMPTIONS = ['float fields are not NaN/infinity (struct may quieten NaNs)']

QUICK = [0, 2, 21, 24, 30, 33, 36, 42, 66, 74, 111, 212, 218, 230, 234, 235, 244]
ARRAYS = [61, 82, 134, 147, 148, 221, 227, 249]
SIZE = {'uint64_t': 8, 'int64_t': 8, 'double': 8, 'uint32_t': 4, 'int32_t': 4, 'float': 4, 'uint16_t': 2, 'int16_t': 2,
        'uint8_t': 1, 'int8_t': 1, 'char': 1}


def cases(tier):
    out = []
    for m in QUICK if tier == 'quick' else list(range(256)):
        out.append(case('roundtrip_%d' % m, 'roundtrip', dict(m=m), cost=5))
    for m in ARRAYS if tier == 'quick' else list(range(256)):
        out.append(case('array_%d' % m, 'array_roundtrip', dict(m=m), cost=5))
    for k in range(2):
        out.append(case('table_%d' % k, 'table', dict(k=k), cost=3))
    out.append(case('minimal', 'minimal', {}, cost=3))
    for m in (0, 218):
        for r in (0, 1, 2, 3):
            out.append(case('flips_%d_%d' % (m, r), 'flips', dict(m=m, part=r), cost=40))
    out.append(case('burst_212', 'burst', dict(m=212), cost=20))
    out.append(case('burst_218', 'burst', dict(m=218), cost=20))
    for m in (33, 218, 234):
        out.append(case('malformed_%d' % m, 'malformed', dict(m=m), cost=20))
    return out


def wire_fields(cls):
    """(name, type) in wire order by the protocol rule: larger types first, declaration order kept"""
    f = list(zip(cls.fieldnames, cls.fieldtypes))
    return sorted(f, key=lambda x: -SIZE[x[1]])


def decode_field(c, t, b):
    v = 0
    for k in range(len(b)):
        v = v + b[k] * 256 ** k
    if t in ('int64_t', 'int32_t', 'int16_t', 'int8_t'):
        n = 256 ** len(b)
        v = c.If(v >= n // 2, v - n, v)
    return v


def crc_extra(c, cls):
    """seed of the checksum by the protocol rule: a digest of the name and the fields of the message"""
    s = list((cls.name + ' ').encode())
    f = [x + (a,) for x, a in zip(wire_fields(cls), cls.array_lengths)]
    for name, t, a in f:
        s = s + list((t + ' ' + name + ' ').encode())
        if a > 0:
            s.append(a)
    crc = crc16(c, s)
    return (crc & 255) ^ (crc >> 8)


def frame(c, m, cls, pay, ids):
    head = [254, len(pay)] + ids + [m]
    crc = crc16(c, head[1:] + pay + [crc_extra(c, cls)])
    return head + pay + [crc & 255, crc >> 8]


def roundtrip(c, m):
    d = c.mod('mavlink_utils.HC_dialect')
    cls = d.mavlink_map.get(m)
    if cls is None or any([a > 0 for a in cls.array_lengths]):
        return
    fields = wire_fields(cls)
    l = sum([SIZE[t] for _, t in fields])
    if l > 60 or any([t in ('char', 'double') for _, t in fields]):
        return
    pay = list(c.bytes('p', l))
    ids = list(c.bytes('h', 3))
    pos = 0
    for name, t in fields:
        if t == 'float':
            c.assume(c.Not(c.And(pay[pos + 2] >= 128, c.Or(pay[pos + 3] == 127, pay[pos + 3] == 255))))
        pos = pos + SIZE[t]
    fr = frame(c, m, cls, pay, ids)
    mav = d.MAVLink(None, srcSystem=0, srcComponent=0)
    msg = mav.decode(array('B', fr))
    c.check('decoded message is of the named type', msg.get_msgId() == m and msg.get_type() == cls.name)
    c.check('ids survive', c.And(msg.get_seq() == ids[0], msg.get_srcSystem() == ids[1], msg.get_srcComponent() == ids[2]))
    kw = {}
    pos = 0
    for name, t in fields:
        b = pay[pos:pos + SIZE[t]]
        kw[name] = getattr(msg, name) if t == 'float' else decode_field(c, t, b)
        if t != 'float':
            c.check('integer field value', getattr(msg, name) == decode_field(c, t, b))
            c.check('formatted value', msg.format_attr(name) == decode_field(c, t, b))
        pos = pos + SIZE[t]
    mav.seq = ids[0]
    mav.srcSystem = ids[1]
    mav.srcComponent = ids[2]
    again = msg.pack(mav)
    c.check('repacking gives the same frame', c.And(len(again) == len(fr), *[x == y for x, y in zip(list(again), fr)]))
    for made in (cls(**kw), getattr(mav, cls.name.lower() + '_encode')(**kw), cls(*[kw[x] for x in cls.fieldnames])):
        out = made.pack(mav)
        c.check('a message built from its field values gives the frame', c.And(len(out) == len(fr), *[x == y for x, y in zip(list(out), fr)]))
    again = msg.pack(mav)
    c.check('packing twice gives the same frame', c.And(len(again) == len(fr), *[x == y for x, y in zip(list(again), fr)]))


CHAR = {'uint64_t': 'Q', 'int64_t': 'q', 'double': 'd', 'uint32_t': 'I', 'int32_t': 'i', 'float': 'f', 'uint16_t': 'H', 'int16_t': 'h',
        'uint8_t': 'B', 'int8_t': 'b'}


def xml_messages():
    root = ET.parse(os.path.join(os.environ.get('SX_REPO', '/repo'), 'mavlink_utils', 'HC_dialect.xml')).getroot()
    out = {}
    for m in root.iter('message'):
        fs = []
        for f in m.findall('field'):
            t = f.get('type').replace('_mavlink_version', '')
            a = 0
            if '[' in t:
                t, n = t.rstrip(']').split('[')
                a = int(n)
            fs.append((f.get('name'), t, a))
        out[int(m.get('id'))] = (m.get('name'), fs)
    return out


def table(c, k):
    """every entry of the message table follows the protocol rules (the id is symbolic)"""
    d = c.mod('mavlink_utils.HC_dialect')
    i = c.int('id', 128 * k, 128 * k + 127)
    xml = xml_messages()
    c.check('the messages are those of the definition file', c.And(*[c.Implies(i == j, (j in d.mavlink_map) == (j in xml)) for j in range(256)]))
    for m, cls in d.mavlink_map.items():
        if m in xml:
            nm, fs = xml[m]
            c.check('name and fields are those of the definition file', c.Implies(i == m, cls.name == nm and cls.fieldnames == [e[0] for e in fs]
                                                                                  and cls.fieldtypes == [e[1] for e in fs]))
            al = dict([(e[0], e[2]) for e in fs])
            c.check('array lengths are those of the definition file',
                    c.Implies(i == m, cls.array_lengths == [al.get(e, -1) for e in cls.ordered_fieldnames]))
        f = [x + (a,) for x, a in zip(wire_fields(cls), cls.array_lengths)]
        fmt = '<' + ''.join(['%ds' % a if t == 'char' else (str(a) if a > 0 else '') + CHAR[t] for _, t, a in f])
        names = [x[0] for x in f]
        here = i == m
        c.check('id of the message class', c.Implies(here, cls.id == m))
        c.check('packing format: larger types first', c.Implies(here, cls.format == fmt and cls.unpacker.format in (fmt, fmt.encode())))
        c.check('wire order of the fields', c.Implies(here, cls.ordered_fieldnames == names))
        c.check('position of each field', c.Implies(here, cls.orders == [names.index(n) for n in cls.fieldnames]))
        c.check('elements of each field', c.Implies(here, cls.lengths == [1 if t == 'char' or a == 0 else a for _, t, a in f]))
        c.check('checksum seed', c.Implies(here, cls.crc_extra == crc_extra(c, cls)))


def array_roundtrip(c, m):
    d = c.mod('mavlink_utils.HC_dialect')
    cls = d.mavlink_map.get(m)
    if cls is None or not any([a > 0 for a in cls.array_lengths]) or any([t in ('char', 'double') for t in cls.fieldtypes]):
        return
    f = [x + (a,) for x, a in zip(wire_fields(cls), cls.array_lengths)]
    l = sum([SIZE[t] * max(a, 1) for _, t, a in f])
    if l > 110:
        return
    pay = list(c.bytes('p', l))
    ids = list(c.bytes('h', 3))
    pos = 0
    for name, t, a in f:
        for j in range(max(a, 1)):
            if t == 'float':
                c.assume(c.Not(c.And(pay[pos + 2] >= 128, c.Or(pay[pos + 3] == 127, pay[pos + 3] == 255))))
            pos = pos + SIZE[t]
    fr = frame(c, m, cls, pay, ids)
    mav = d.MAVLink(None, srcSystem=0, srcComponent=0)
    msg = mav.decode(array('B', fr))
    c.check('decoded message is of the named type', msg.get_msgId() == m and msg.get_type() == cls.name)
    c.check('ids survive', c.And(msg.get_seq() == ids[0], msg.get_srcSystem() == ids[1], msg.get_srcComponent() == ids[2]))
    pos = 0
    for name, t, a in f:
        v = getattr(msg, name)
        if a > 0:
            c.check('number of elements', len(v) == a)
        for j in range(max(a, 1)):
            b = pay[pos:pos + SIZE[t]]
            if t != 'float':
                c.check('element value', (v[j] if a > 0 else v) == decode_field(c, t, b))
            pos = pos + SIZE[t]
    mav.seq = ids[0]
    mav.srcSystem = ids[1]
    mav.srcComponent = ids[2]
    again = msg.pack(mav)
    c.check('repacking gives the same frame', c.And(len(again) == len(fr), *[x == y for x, y in zip(list(again), fr)]))


def minimal(c):
    """the minimal dialect has the same codec"""
    d = c.mod('mavlink_utils.minimal_dialect')
    for m, cls in d.mavlink_map.items():
        c.check('checksum seed of the minimal dialect', cls.crc_extra == crc_extra(c, cls))
        f = wire_fields(cls)
        if any([a > 0 for a in cls.array_lengths]):
            continue
        pay = [(7 * q + 3) % 64 for q in range(sum([SIZE[t] for _, t in f]))]
        pay[0] = c.byte('p%d' % m)
        fr = frame(c, m, cls, pay, list(c.bytes('h%d' % m, 3)))
        msg = d.MAVLink(None).decode(array('B', fr))
        pos = 0
        for name, t in f:
            if t != 'float':
                c.check('field of the minimal dialect', getattr(msg, name) == decode_field(c, t, pay[pos:pos + SIZE[t]]))
            pos = pos + SIZE[t]
        e = c.byte('e%d' % m)
        c.assume(e != 0)
        fr[2] = fr[2] ^ e
        ok, x = c.attempt(d.MAVLink(None).decode, array('B', fr))
        c.check('corrupted frame of the minimal dialect is rejected', not ok and isinstance(x, d.MAVError))


def rejected(c, buf):
    pm = c.mod('protocol_meta')
    ok, e = c.attempt(pm.dialect_meta.protocol_parser, array('B', buf))
    return not ok and isinstance(e, pm.MAVError)


def flips(c, m, part):
    """one to three flipped bits anywhere but in marker, length and id bytes are detected, for every payload"""
    d = c.mod('mavlink_utils.HC_dialect')
    cls = d.mavlink_map[m]
    l = cls.unpacker.size
    pay = list(c.bytes('p', l))
    ids = list(c.bytes('h', 3))
    fr = frame(c, m, cls, pay, ids)
    n = len(fr)
    where = [i for i in range(n) if i not in (0, 1, 5)]
    pos = [c.int('e%d' % k, 0, 8 * len(where) - 1) for k in range(3)]
    q = 8 * len(where) // 4
    c.assume(c.And(pos[0] <= pos[1], pos[1] <= pos[2]))
    c.assume(c.And(pos[0] >= q * part, pos[0] < (q * (part + 1) if part < 3 else 8 * len(where))))
    c.assume(c.Not(c.And(pos[0] == pos[1], pos[1] != pos[2])))   # two equal positions would cancel to a single flip, kept below
    bad = []
    for i in range(n):
        if i in (0, 1, 5):
            bad.append(fr[i])
            continue
        j = where.index(i)
        e = 0
        for b in range(8):
            hit = c.Or(*[p == 8 * j + b for p in pos])
            e = e + c.b2i(hit) * (1 << b)
        bad.append(fr[i] ^ e)
    c.check('up to three flipped bits are always detected', rejected(c, bad))


def burst(c, m):
    """any error confined to 16 consecutive bits (byte aligned start anywhere) is detected"""
    d = c.mod('mavlink_utils.HC_dialect')
    cls = d.mavlink_map[m]
    l = cls.unpacker.size
    pay = list(c.bytes('p', l))
    ids = list(c.bytes('h', 3))
    fr = frame(c, m, cls, pay, ids)
    at = c.choice('at', [2, 3] + list(range(6, len(fr) - 3)) + [len(fr) - 2])
    e = [c.byte('e0'), c.byte('e1')]
    c.assume(c.Or(e[0] != 0, e[1] != 0))
    bad = list(fr)
    bad[at] = bad[at] ^ e[0]
    bad[at + 1] = bad[at + 1] ^ e[1]
    c.check('any burst of 16 bits is detected', rejected(c, bad))


def malformed(c, m):
    """marker, length or id tampering, truncation, extension are rejected with the parser error"""
    d = c.mod('mavlink_utils.HC_dialect')
    cls = d.mavlink_map[m]
    l = cls.unpacker.size
    pay = [(11 * q + 5) % 256 for q in range(l)]
    fr = frame(c, m, cls, pay, [4, 1, 1])
    kind = c.choice('kind', ['length', 'cut', 'extend', 'unknown id'])
    x = c.byte('x')
    bad = list(fr)
    if kind == 'length':
        c.assume(x != l)
        bad[1] = x
    elif kind == 'cut':
        k = c.choice('cut', list(range(6, len(fr))))
        bad = bad[:k]
    elif kind == 'extend':
        bad = bad + [x]
    else:
        c.assume(c.And(*[x != i for i in d.mavlink_map]))
        bad[5] = x
    c.check('malformed frame is rejected with the parser error', rejected(c, bad))
