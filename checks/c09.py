"""C09 field map of a buffer: bits, names, types and values agree."""
import struct
import numpy as np
from checks.lib import case
from checks.c07 import wire_fields, SIZE, decode_field

BOUNDS = dict(quick='structures of one to three scalar messages at varying offsets (with gaps, any order), every buffer content; '
                    'numbers: every value of 8/16/32/64-bit integer types, reals for rounding')
OUTSIDE = 'messages with array or character fields (known finding for the bit map of array messages)'

HDR = ['magic', '%s_mlen', 'seq', 'srcSystem', '%s_srcComponent', '%s_msgId']


def cases(tier):
    out = []
    S = [('one', [[0, 0]], 17), ('offset', [[3, 218]], 21), ('two', [[0, 218], [18, 234]], 38), ('gap', [[1, 0], [20, 218]], 40),
         ('tail', [[0, 218]], 22), ('order', [[18, 0], [0, 218]], 35), ('twice', [[0, 0], [17, 0]], 34),
         ('real', [[0, 212], [27, 218], [45, 33], [97, 234]], 117)]
    for name, st, n in S:
        out.append(case('map_' + name, 'fmap', dict(st=st, n=n), cost=10))
        out.append(case('values_' + name, 'values', dict(st=st, n=n), cost=20))
    for t in ('uint8_t', 'int8_t', 'uint16_t', 'int16_t', 'uint32_t', 'int32_t', 'uint64_t', 'int64_t'):
        out.append(case('bits_' + t, 'bits', dict(t=t)))
        out.append(case('bits_frac_' + t, 'bits_frac', dict(t=t)))
    out.append(case('bits_bad', 'bits_bad', {}))
    out.append(case('array_221', 'array_map', {}))
    return out


def layout(c, st):
    """[(name, type, first bit, bits)] in structure order, from the protocol description"""
    d = c.mod('mavlink_utils.HC_dialect')
    out = []
    for off, m in st:
        cls = d.mavlink_map[m]
        for k in range(6):
            nm = HDR[k] % cls.name if '%' in HDR[k] else HDR[k]
            out.append((nm, 'uint8_t', 8 * (off + k), 8))
        p = off + 6
        for name, t in wire_fields(cls):
            out.append((cls.name + '_' + name, t, 8 * p, 8 * SIZE[t]))
            p = p + SIZE[t]
    return out


def fmap(c, st, n):
    sm = c.mod('inference.statistical_models')
    lay = layout(c, st)
    b2v, names, types = sm.BufferModel.unpack_structure(True, n, {a: b for a, b in st})
    c.check('field names in buffer order', list(names) == [x[0] for x in lay])
    c.check('field types in buffer order', list(types) == [x[1] for x in lay])
    want = [-1] * (8 * n)
    for i, (_, _, a, l) in enumerate(lay):
        for k in range(l):
            want[a + k] = i
    c.check('one entry per bit', len(b2v) == 8 * n)
    # every bit position at once
    j = c.int('bit', 0, 8 * n - 1)
    w = 0
    g = 0
    for k in range(8 * n):
        w = c.If(j == k, want[k], w)
        g = c.If(j == k, int(b2v[k]), g)
    c.check('bit belongs to its field', w == g)
    _, names2, types2 = sm.BufferModel.unpack_structure(False, n, {a: b for a, b in st})
    c.check('names do not depend on the bit map', list(names2) == list(names) and list(types2) == list(types))


def values(c, st, n):
    sm = c.mod('inference.statistical_models')
    lay = layout(c, st)
    buf = c.bytes('b', n)
    S = {a: b for a, b in st}
    vals = sm.BufferModel.unpack_values(buf, S)
    c.check('one value per field', len(vals) == len(lay))
    for v, (nm, t, a, l) in zip(vals, lay):
        if t != 'float':
            c.check('value is decoded from the bits of its field', v == decode_field(c, t, buf[a // 8:(a + l) // 8]))
            bits = sm.num2bits(v, t)
            c.check('bit representation is the field on the wire',
                    c.And(len(bits) == l, *[bits[k] == ((buf[a // 8 + k // 8] >> (7 - k % 8)) & 1) for k in range(l)]))
    arr = np.array([(buf[i // 8] >> (7 - i % 8)) & 1 for i in range(8 * n)])
    v2 = sm.BufferModel.unpack_values(arr, S)
    c.check('a bit array gives the same integer values', c.And(len(v2) == len(vals), *[x == y for x, y, f in zip(v2, vals, lay)
                                                                                          if f[1] != 'float']))


def rng(t):
    n = 8 * SIZE[t]
    return (0, 2 ** n - 1) if t[0] == 'u' else (-2 ** (n - 1), 2 ** (n - 1) - 1)


def bits(c, t):
    sm = c.mod('inference.statistical_models')
    lo, hi = rng(t)
    v = c.int('v', lo, hi)
    b = sm.num2bits(v, t)
    l = 8 * SIZE[t]
    c.observe('bits', b)
    u = c.If(v < 0, v + 2 ** l, v)
    c.check('little-endian bytes, most significant bit first in each',
            c.And(len(b) == l, *[b[k] == ((u >> (8 * (k // 8) + 7 - k % 8)) & 1) for k in range(l)]))


def bits_frac(c, t):
    """fractions round to nearest, negative values of unsigned fields become zero"""
    sm = c.mod('inference.statistical_models')
    lo, hi = rng(t)
    n = c.int('n', max(4 * lo, -2 ** 48) if t[0] != 'u' else -4000, min(4 * hi, 2 ** 48))
    q = n / 4
    b = sm.num2bits(q, t)
    l = 8 * SIZE[t]
    val = 0
    for k in range(l):
        val = val + c.If(b[k] == 1, 2 ** (8 * (k // 8) + 7 - k % 8), 0)
    if t[0] != 'u':
        val = c.If(val >= 2 ** (l - 1), val - 2 ** l, val)
        c.check('nearest integer', c.And(4 * val - n <= 2, n - 4 * val <= 2))
    else:
        c.check('nearest non-negative integer', c.And(c.Implies(n >= 0, c.And(4 * val - n <= 2, n - 4 * val <= 2)), c.Implies(n < 0, val == 0)))


def bits_bad(c):
    sm = c.mod('inference.statistical_models')
    v = c.int('v', 0, 100)
    ok, e = c.attempt(sm.num2bits, v, 'quaternion')
    c.check('unknown type is rejected', not ok)
    for t in ('uint8_t', 'int8_t', 'uint16_t', 'int16_t', 'uint32_t', 'int32_t', 'uint64_t', 'int64_t'):
        lo, hi = rng(t)
        w = c.int('w' + t, hi + 1, hi + 50)
        ok, e = c.attempt(sm.num2bits, w, t)
        c.check('a number that does not fit is rejected', not ok)
        if t[0] != 'u':
            w = c.int('n' + t, lo - 50, lo - 1)
            ok, e = c.attempt(sm.num2bits, w, t)
            c.check('a negative number that does not fit is rejected', not ok)
    ok, e = c.attempt(sm.BufferModel.unpack_values, [1, 2], {0: 0})
    c.check('other buffer types are rejected', not ok)


def array_map(c):
    """messages with array fields: every payload bit must belong to its field"""
    sm = c.mod('inference.statistical_models')
    ok, r = c.attempt(sm.BufferModel.unpack_structure, True, 29, {0: 221})
    c.check('array messages have a bit map', ok)
