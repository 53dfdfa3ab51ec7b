"""C11 buffer model: what it learns from buffers, predicts for a buffer, and keeps across save and load."""
import os
import shutil
import tempfile
import numpy as np
from checks.lib import case
from checks.c07 import SIZE, decode_field
from checks.c09 import layout

BOUNDS = dict(quick='histories of 1..4 buffers of 15..38 bytes with all integer field bytes symbolic, windows 1..3 or none, buffers as '
                    'bytes and as bit arrays; predictions and means with two symbolic bytes per buffer',
              thorough='histories of up to 6 buffers')
ASSUMPTIONS = ['field statistics themselves are those of the field model (C10)']
OUTSIDE = 'samples of character type; files are written to a scratch directory'


def cases(tier):
    out = []
    k = 3 if tier == 'quick' else 6
    for w in (None, 1, 2, 3):
        out.append(case('learn_%s' % w, 'learn', dict(st=[[0, 218]], n=18, w=w, k=k), cost=10))
    out.append(case('learn_far', 'learn', dict(st=[[0, 218], [60, 0], [100, 218]], n=121, w=2, k=k), cost=30))
    out.append(case('learn_order', 'learn', dict(st=[[18, 0], [0, 218]], n=35, w=None, k=k), cost=20))
    out.append(case('learn_twice', 'learn', dict(st=[[0, 0], [17, 0]], n=34, w=3, k=k), cost=20))
    out.append(case('learn_long', 'learn', dict(st=[[0, 0]], n=17, w=4, k=9), cost=20))
    out.append(case('learn_two', 'learn', dict(st=[[1, 218], [20, 0]], n=36, w=3, k=2), cost=10))
    out.append(case('learn_mixed', 'learn_mixed', {}, cost=10))
    for bits in (False, True):
        out.append(case('predict_%d' % bits, 'predict', dict(bits=bits, st=[[0, 218]], n=18), cost=20))
        out.append(case('predict_gap_%d' % bits, 'predict', dict(bits=bits, st=[[2, 218]], n=22), cost=20))
    out.append(case('predict_unknown', 'predict_unknown', {}, cost=10))
    for name, st, n in (('one', [[0, 218]], 18), ('gap', [[2, 0], [19, 218]], 40), ('cut', [[0, 218]], 16),
                        ('real', [[0, 212], [27, 218], [45, 33], [97, 234]], 117)):
        out.append(case('damaged_' + name, 'damaged', dict(st=st, n=n), cost=10))
        out.append(case('damaged_many_' + name, 'damaged_many', dict(st=st, n=n), cost=10))
    for name, st, n in (('one', [[0, 218]], 16), ('gap', [[1, 0]], 20)):
        out.append(case('mean_' + name, 'mean_bits', dict(st=st, n=n), cost=10))
    for w in (None, 2, 3):
        out.append(case('save_%s' % w, 'save', dict(w=w), cost=10))
    out.append(case('save_desc', 'save_desc', {}))
    out.append(case('kinds', 'kinds', {}))
    return out


def last(xs, w):
    return xs if w is None else xs[-w:]


def to_bits(c, buf):
    return np.array([(buf[i // 8] >> (7 - i % 8)) & 1 for i in range(8 * len(buf))])


def field_values(c, buf, lay):
    return [decode_field(c, t, buf[a // 8:(a + l) // 8]) for nm, t, a, l in lay]


def check_samples(c, m, hist, w):
    c.check('exactly the fields of the buffers are modelled', sorted(m.fields_names()) == sorted(hist))
    for nm in hist:
        want = last(hist[nm], w)
        got = m[nm].samples
        c.check('field keeps its most recent values', c.And(len(got) == len(want), *[x == y for x, y in zip(got, want)]))


def learn(c, st, n, w, k):
    inf = c.mod('inference')
    lay = layout(c, st)
    S = {a: b for a, b in st}
    m = inf.BufferModel(window_size=w)
    c.check('an empty model has size zero', m.model_size == 0)
    hist = {}
    for i in range(k):
        buf = c.bytes('b%d' % i, n)
        arg = buf if i % 2 == 0 else to_bits(c, buf)
        keep = arg.copy() if i % 2 else None
        m.add_buffer(arg, S)
        if i % 2:
            c.check('the buffer is not changed', c.same(arg, keep))
        for f, v in zip(lay, field_values(c, buf, lay)):
            hist.setdefault(f[0], []).append(v)
        check_samples(c, m, hist, w)
        c.check('model size counts buffers up to the window', m.model_size == (i + 1 if w is None else min(i + 1, w)))
    c.check('field types', all([m[f[0]].field_type == f[1] and m[f[0]].window_size == w for f in lay]))
    c.check('the structure is not changed', S == {a: b for a, b in st})


def learn_mixed(c):
    """a model fed with buffers of two different structures"""
    inf = c.mod('inference')
    m = inf.BufferModel(window_size=2)
    hist = {}
    for i, (st, n) in enumerate((([[0, 218]], 18), ([[1, 0]], 18), ([[0, 218]], 20), ([[0, 218]], 18))):
        buf = c.bytes('b%d' % i, n)
        lay = layout(c, st)
        m.add_buffer(buf, {a: b for a, b in st})
        for f, v in zip(lay, field_values(c, buf, lay)):
            hist.setdefault(f[0], []).append(v)
    check_samples(c, m, hist, 2)


def base(c, st, n, tag, free):
    """a buffer with concrete bytes but the few in `free`"""
    return c.seq('bytes', [c.int('%s[%d]' % (tag, i), 0, 2) if i in free else (37 * i + 11) % 251 for i in range(n)])


def predict(c, bits, st, n):
    inf = c.mod('inference')
    off = st[0][0]
    lay = layout(c, st)
    S = {a: b for a, b in st}
    m = inf.BufferModel()
    free = (off + 2, off + 12)
    ref = {}
    for i in range(2):
        b = base(c, st, n, 'h%d' % i, free)
        m.add_buffer(b, S)
        for f, v in zip(lay, field_values(c, b, lay)):
            if f[0] not in ref:
                ref[f[0]] = inf.FieldModel(f[0], f[1])
            ref[f[0]].add_sample(v)
    buf = base(c, st, n, 'x', free)
    arg = to_bits(c, buf) if bits else buf
    fp, bp, sd = m.predict(arg, S)
    c.check('one probability per bit', len(bp) == 8 * n and len(sd) == 8 * n)
    c.check('one entry per field', len(fp) == len(lay))
    inside = [False] * (8 * n)
    for k, (f, v) in enumerate(zip(lay, field_values(c, buf, lay))):
        p, s = ref[f[0]].classify_value(v)
        c.check('field entry', c.And(fp[k][0] == f[0], c.close(fp[k][1], p), c.close(fp[k][2], s)))
        for j in range(f[2], f[2] + f[3]):
            inside[j] = True
            c.check('each bit carries the probability and spread of its field', c.And(c.close(bp[j], p), c.close(sd[j], s)))
    out = [j for j in range(8 * n) if not inside[j]]
    c.check('bits outside fields have no probability', c.And(*[np.isnan(bp[j]) and np.isnan(sd[j]) for j in out]))
    c.check('prediction does not learn', m.model_size == 2 and all([x.model_size == 2 for x in m]))


def predict_unknown(c):
    """fields the model never saw have no probability; known ones keep theirs"""
    inf = c.mod('inference')
    m = inf.BufferModel()
    st0, st1 = [[0, 218]], [[0, 218], [18, 0]]
    b = base(c, st0, 18, 'h', (12,))
    m.add_buffer(b, {0: 218})
    buf = base(c, st1, 35, 'x', (12, 20))
    fp, bp, sd = m.predict(buf, {0: 218, 18: 0})
    lay = layout(c, st1)
    known = [f[0] for f in layout(c, st0)]
    c.check('one entry per field', len(fp) == len(lay))
    for k, f in enumerate(lay):
        if f[0] in known:
            c.check('known field has an entry', fp[k] is not None and fp[k][0] == f[0])
            c.check('known field has probabilities', all([not np.isnan(bp[j]) for j in range(f[2], f[2] + f[3])]))
        else:
            c.check('unknown field has no entry', fp[k] is None)
            c.check('unknown field has no probabilities', all([np.isnan(bp[j]) for j in range(f[2], f[2] + f[3])]))


def damaged(c, st, n):
    inf = c.mod('inference')
    lay = layout(c, st)
    S = {a: b for a, b in st}
    m = inf.BufferModel()
    e = c.int('e', 0, 8 * n + 40)
    got = m.find_damaged_fields(np.array([e]), S, n)
    owner = [(-1, '')] * (8 * n)
    for k, f in enumerate(lay):
        for j in range(f[2], f[2] + f[3]):
            owner[j] = (k, f[0])
    hit = [j for j in range(8 * n) if owner[j][0] >= 0]
    c.check('an error is reported exactly when it hits a field', c.Iff(c.Or(*[e == j for j in hit]), len(got) == 1))
    c.check('at most one field per error', len(got) <= 1)
    if len(got) == 1:
        nm, k = got[0]
        c.check('and names that field', c.Or(*[c.And(e == j, k == owner[j][0], nm == owner[j][1]) for j in hit]))


def damaged_many(c, st, n):
    """several errors, in any order and with repetitions"""
    inf = c.mod('inference')
    S = {a: b for a, b in st}
    m = inf.BufferModel()
    e2, e3 = c.int('e2', 0, 8 * n - 1), 8 * n + 3
    both = m.find_damaged_fields(np.array([e2, e3, 0]), S, n)
    zero = m.find_damaged_fields(np.array([0]), S, n)
    two = m.find_damaged_fields(np.array([e2]), S, n)
    c.check('errors are reported in buffer order', both == zero + two)


def mean_bits(c, st, n):
    inf = c.mod('inference')
    sm = c.mod('inference.statistical_models')
    off = st[0][0]
    lay = layout(c, st)
    S = {a: b for a, b in st}
    m = inf.BufferModel()
    free = (off + 2, off + 12)
    ref = {}
    for i in range(2):
        b = base(c, st, 18 + off, 'h%d' % i, free)
        m.add_buffer(b, S)
        for f, v in zip(lay, field_values(c, b, lay)):
            if f[0] not in ref:
                ref[f[0]] = inf.FieldModel(f[0], f[1])
            ref[f[0]].add_sample(v)
    idx = list(range(0, 8 * n, 3)) + [1, 8 * n - 1]
    got = m.bitwise_model_mean(np.array(idx), n, S)
    want = [0] * (8 * n)
    for f in lay:
        mb = ref[f[0]].bitwise_mean()
        for j in range(f[3]):
            want[f[2] + j] = mb[j]
    c.check('bits of the field means at the asked positions, zero outside fields',
            c.And(len(got) == len(idx), *[got[i] == want[j] for i, j in enumerate(idx)]))


def save(c, w):
    inf = c.mod('inference')
    st = [[0, 218], [18, 0]]
    S = {a: b for a, b in st}
    lay = layout(c, st)
    m = inf.BufferModel(window_size=w)
    hist = {}
    for i in range(3):
        b = c.bytes('b%d' % i, 36)
        m.add_buffer(b, S)
        for f, v in zip(lay, field_values(c, b, lay)):
            hist.setdefault(f[0], []).append(v)
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, 'model.json')
        m.save(fn)
        r = inf.BufferModel.load(fn)
    finally:
        shutil.rmtree(d)
    check_samples(c, m, hist, w)
    check_samples(c, r, hist, w)
    c.check('window and size survive', r.window_size == w and r.model_size == m.model_size)
    for nm in hist:
        c.check('field type and window survive', r[nm].field_type == m[nm].field_type and r[nm].window_size == w and r[nm].name == nm)
    # a loaded model goes on as the original would
    b = c.bytes('next', 36)
    r.add_buffer(b, S)
    for f, v in zip(lay, field_values(c, b, lay)):
        hist[f[0]].append(v)
    check_samples(c, r, hist, w)
    c.check('size goes on', r.model_size == (4 if w is None else min(4, w)))


def save_desc(c):
    inf = c.mod('inference')
    m = inf.BufferModel()
    h = c.bytes('h', 6)
    m.add_sample('a', c.byte('s'), 'uint8_t')
    m.set_buffer_description([h, ('a', 'uint8_t'), 'crc'])
    c.check('names of the description', m.ordered_field_names == ['a'])
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, 'model.json')
        m.save(fn)
        r = inf.BufferModel.load(fn)
    finally:
        shutil.rmtree(d)
    x = r.get_buffer_description()
    c.check('description survives', c.And(len(x) == 3, x[0] == h, list(x[1]) == ['a', 'uint8_t'], x[2] == 'crc'))
    c.check('names survive', r.ordered_field_names == ['a'])


def kinds(c):
    inf = c.mod('inference')
    m = inf.BufferModel()
    for bad in ([0] * 40, 'abc', None):
        ok, e = c.attempt(m.add_buffer, bad, {0: 218})
        c.check('other buffer kinds are rejected', not ok and isinstance(e, ValueError))
        ok, e = c.attempt(m.predict, bad, {0: 218})
        c.check('other buffer kinds are rejected in prediction', not ok and isinstance(e, ValueError))
    c.check('a rejected buffer leaves no trace', m.model_size == 0 and len(m) == 0)
    m.add_sample('q', c.byte('q'), 'uint8_t')
    c.check('single samples make a field', 'q' in m and m.get_field_model('q') is m['q'] and m.get_field_model('r') is None)
