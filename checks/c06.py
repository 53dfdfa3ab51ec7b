"""C06 buffer structures: adherence, registration, equality."""
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='structures of 0..5 messages at listed offsets up to 240, every buffer content, lengths up to 250 bytes including '
                    'buffers too short; structure message ids symbolic 0..255')


def cases(tier):
    out = []
    for name, idx, n in (('one', [0], 6), ('one_off', [3], 12), ('short', [3], 8), ('two', [0, 8], 14), ('two_short', [0, 9], 12),
                         ('three', [0, 6, 13], 20), ('none', [], 5), ('empty_buf', [0], 0), ('unordered', [9, 1], 15), ('far', [0, 27, 45, 97], 117), ('far_short', [0, 27, 97], 102),
                         ('five', [2, 8, 14, 20, 26], 33), ('last', [240], 250)):
        out.append(case('adheres_' + name, 'adheres', dict(idx=idx, n=n)))
    out.append(case('history', 'history', {}))
    out.append(case('equality', 'equality', {}))
    out.append(case('separate', 'separate', {}))
    return out


def known(c, m):
    d = c.mod('mavlink_utils.HC_dialect')
    return c.Or(*[m == i for i in d.mavlink_map])


def want(c, idx, ids, buf):
    r = True
    for i, m in zip(idx, ids):
        if i + 6 > len(buf):
            return False
        r = c.And(r, buf[i + 5] == m, known(c, buf[i + 5]))
    return r


def adheres(c, idx, n):
    inf = c.mod('inference')
    buf = c.bytes('b', n)
    ids = [c.int('id%d' % k, 0, 255) for k in range(len(idx))]
    st = inf.BufferStructure({i: m for i, m in zip(idx, ids)})
    ok, got = c.attempt(st.adheres_to_structure, buf)
    c.check('adherence test never raises', ok)
    w = want(c, idx, ids, buf)
    if ok:
        c.check('adheres exactly when every listed position holds the listed message id', c.Iff(got, w))
    ok, e = c.attempt(st.register_buffer, buf)
    c.check('registration accepts exactly adhering buffers', c.Iff(ok, w))
    c.check('reception count', st.reception_count == (1 if ok else 0))
    c.check('buffer kept', len(st.received_buffers) == (1 if ok else 0))
    if ok:
        c.check('kept buffer is the given one', st.received_buffers[0] == buf)
    else:
        c.check('rejection is a ValueError', isinstance(e, ValueError))
    c.check('number of messages', len(st) == len(idx))


def history(c):
    inf = c.mod('inference')
    st = inf.BufferStructure({1: 33})
    n = 0
    kept = []
    for k in range(3):
        b = c.bytes('b%d' % k, 8)
        if c.And(b[6] == 33):
            st.register_buffer(b)
            n += 1
            kept.append(b)
        else:
            ok, e = c.attempt(st.register_buffer, b)
            c.check('rejected', not ok)
        c.check('count is the number of accepted buffers', st.reception_count == n)
        c.check('accepted buffers are kept in order', c.And(len(st.received_buffers) == n,
                                                             *[x == y for x, y in zip(st.received_buffers, kept)]))
    c.check('structure unchanged by registration', st.structure == {1: 33})


def equality(c):
    inf = c.mod('inference')
    a = [c.int('a%d' % k, 0, 255) for k in range(2)]
    b = [c.int('b%d' % k, 0, 255) for k in range(2)]
    s = inf.BufferStructure({0: a[0], 10: a[1]})
    t = inf.BufferStructure({0: b[0], 10: b[1]})
    u = inf.BufferStructure({0: b[0]})
    v = inf.BufferStructure({0: b[0], 11: b[1]})
    same = c.And(a[0] == b[0], a[1] == b[1])
    c.check('equal exactly when the same messages sit at the same places', c.Iff(s == t, same))
    c.check('equal to the plain mapping', c.Iff(s == {0: b[0], 10: b[1]}, same))
    c.check('fewer messages differ', not s == u)
    c.check('moved message differs', not s == v)
    t.reception_count = 5
    c.check('equality ignores receptions', c.Iff(s == t, same))
    c.check('other types differ', not s == 3)
    w = inf.BufferStructure({0: b[0], 10: b[1]}, np.zeros(18))
    c.check('equality ignores the byte labels', c.And(c.Iff(s == w, same), c.Iff(w == s, same)))
    w.set_models(inf.BufferModel(window_size=3))
    w.received_buffers.append(b'xyz')
    c.check('equality ignores models and buffers', c.Iff(s == w, same))


def separate(c):
    """structures do not share receptions or models, even when they are equal"""
    inf = c.mod('inference')
    ss = [inf.BufferStructure({1: 33}), inf.BufferStructure({1: 33}), inf.BufferStructure({0: 30})]
    kept = [[], [], []]
    for k in range(4):
        b = c.bytes('b%d' % k, 8)
        i = k % 3
        ok, e = c.attempt(ss[i].register_buffer, b)
        if ok:
            kept[i].append(b)
        for s, w in zip(ss, kept):
            c.check('each structure counts its own receptions', s.reception_count == len(w))
            c.check('each structure keeps its own buffers', c.And(len(s.received_buffers) == len(w),
                                                                   *[x == y for x, y in zip(s.received_buffers, w)]))
    m = inf.BufferModel(window_size=3)
    ss[0].set_models(m)
    c.check('models are set for one structure only', ss[0].field_models is m and ss[1].field_models is not m)
