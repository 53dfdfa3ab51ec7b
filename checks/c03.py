"""C03 Hamming distance."""
import numpy as np
import bitstring
from checks.lib import case

BOUNDS = dict(quick='byte strings up to 280 bytes, integers up to 128 bits, bit arrays up to 400 bits; every pair of values',
              thorough='byte strings up to 512 bytes, integers up to 256 bits, bit arrays up to 1000 bits')


def cases(tier):
    out = []
    for n in (1, 2, 6, 8, 9, 17, 33, 64, 100, 280) if tier == 'quick' else (1, 2, 3, 6, 8, 9, 16, 17, 24, 33, 64, 100, 128, 280, 512):
        out.append(case('bytes_%d' % n, 'dist_bytes', dict(n=n), optional=n > 2, query_ms=20000))
    for w in (1, 8, 13, 16, 32, 64) if tier == 'quick' else (1, 5, 8, 13, 16, 24, 32, 64, 128):
        out.append(case('ints_%d' % w, 'dist_ints', dict(w=w), optional=w > 16, query_ms=20000))
    for n in (1, 7, 8, 24, 65, 130, 400) if tier == 'quick' else (1, 7, 8, 24, 65, 96, 130, 400, 1000):
        out.append(case('arrays_%d' % n, 'dist_arrays', dict(n=n), optional=n > 16, query_ms=20000))
        out.append(case('bits_%d' % n, 'dist_bits', dict(n=n), optional=n > 16, query_ms=20000))
    for n in (1, 2, 4, 9, 16) if tier == 'quick' else (1, 2, 3, 4, 8, 9, 16, 32):
        out.append(case('mixed_%d' % n, 'mixed', dict(n=n), optional=n > 1))
    for na, nb in ((2, 3), (3, 2), (1, 8), (8, 9), (16, 15), (0, 1), (64, 65)):
        out.append(case('length_mismatch_%d_%d' % (na, nb), 'length_mismatch', dict(na=na, nb=nb)))
    for w in (8, 1, 4, 9, 16, 40):
        out.append(case('int_range_%d' % w, 'int_range', dict(w=w), reach=['fits', 'does not fit']))
    out.append(case('bad_types', 'bad_types', {}))
    return out


def weight(c, xs, ys):
    return sum([c.b2i(x != y) for x, y in zip(xs, ys)])


def bits_of(c, v, w):
    return [(v >> (w - 1 - i)) & 1 for i in range(w)]


def bits_of_bytes(c, b):
    return [x for v in b for x in bits_of(c, v, 8)]


def common(c, f, a, b, want, *args):
    d = f(a, b, *args)
    c.observe('d', d)
    c.check('distance is the number of differing bits', d == want)
    c.check('result is a plain int', type(d) is int)
    c.check('symmetric', f(b, a, *args) == want)
    c.check('zero to itself', f(a, a, *args) == 0)


def dist_bytes(c, n):
    f = c.mod('utils.bit_operations').hamming_distance
    a, b = c.bytes('a', n), c.bytes('b', n)
    common(c, f, a, b, weight(c, bits_of_bytes(c, a), bits_of_bytes(c, b)))


def dist_ints(c, w):
    f = c.mod('utils.bit_operations').hamming_distance
    a, b = c.int('a', 0, (1 << w) - 1), c.int('b', 0, (1 << w) - 1)
    common(c, f, a, b, weight(c, bits_of(c, a, w), bits_of(c, b, w)), w)
    if w == 8:
        common(c, f, a, b, weight(c, bits_of(c, a, w), bits_of(c, b, w)))


def dist_arrays(c, n):
    f = c.mod('utils.bit_operations').hamming_distance
    a, b = c.bits('a', n), c.bits('b', n)
    common(c, f, a, b, weight(c, a, b))


def dist_bits(c, n):
    f = c.mod('utils.bit_operations').hamming_distance
    a, b = c.bits('a', n), c.bits('b', n)
    common(c, f, bitstring.Bits([int(x) for x in a]), bitstring.Bits([int(x) for x in b]), weight(c, a, b))


def mixed(c, n):
    f = c.mod('utils.bit_operations').hamming_distance
    w = 8 * n
    a = c.bytes('a', n)
    b = c.int('b', 0, (1 << w) - 1)
    arr = c.bits('r', w)
    wid = () if n == 1 else (w,)
    ab, bb_ = bits_of_bytes(c, a), bits_of(c, b, w)
    w1, w2, w3 = weight(c, ab, bb_), weight(c, ab, arr), weight(c, bb_, arr)
    bb = bitstring.Bits([int(x) for x in arr])
    c.check('bytes vs int', c.And(f(a, b, *wid) == w1, f(b, a, *wid) == w1))
    c.check('bytes vs array', c.And(f(a, arr) == w2, f(arr, a) == w2))
    c.check('int vs array', c.And(f(b, arr, *wid) == w3, f(arr, b, *wid) == w3))
    c.check('bits vs anything', c.And(f(bb, a) == w2, f(a, bb) == w2, f(b, bb, *wid) == w3, f(bb, b, *wid) == w3,
                                      f(bb, arr) == 0, f(arr, bb) == 0))


def length_mismatch(c, na, nb):
    f = c.mod('utils.bit_operations').hamming_distance
    a, b = c.bytes('a', na), c.bytes('b', nb)
    x, y = c.bits('x', 8 * na), c.bits('y', 8 * nb)
    z = c.bits('z', 8 * nb + 1)
    v = c.int('v', 0, (1 << 8 * nb) - 1)
    pairs = [(a, b, ()), (x, y, ()), (a, y, ()), (x, b, ()), (a, z, ()), (z, y, ())]
    if nb:
        pairs += [(a, v, (8 * nb,)), (v, x, (8 * nb,))]
    for p, q, w in pairs:
        ok, e = c.attempt(f, p, q, *w)
        c.check('different lengths are rejected', not ok and isinstance(e, ValueError))
        ok, e = c.attempt(f, bitstring.Bits([int(t) for t in p]) if p is x or p is z else p, q, *w)
        c.check('different lengths are rejected (bits)', not ok and isinstance(e, ValueError))


def int_range(c, w):
    f = c.mod('utils.bit_operations').hamming_distance
    a = c.int('a', -4, (1 << w) + 44)
    wid = () if w == 8 else (w,)
    fits = c.And(a >= 0, a < 1 << w)
    for args in ((a, 0), (0, a), (a, a)):
        ok, e = c.attempt(f, *args, *wid)
        c.check('integers are accepted exactly when they fit the given width', c.Iff(ok, fits))
    c.reach('fits', fits)
    c.reach('does not fit', c.Not(fits))


def bad_types(c):
    f = c.mod('utils.bit_operations').hamming_distance
    b = c.byte('b')
    for bad in (None, 1.5, 'ab', [1, 0]):
        ok, e = c.attempt(f, b, bad)
        c.check('unsupported operands raise TypeError', not ok and isinstance(e, TypeError))
        ok, e = c.attempt(f, bad, b)
        c.check('unsupported operands raise TypeError (first)', not ok and isinstance(e, TypeError))
