"""Self test (not a property): expressions over the modelled parts of Python, numpy, struct and bitstring; concordance compares them with the real ones."""
import numpy as np
import random
from checks.lib import case
import struct, bitstring, collections, itertools, functools, math, statistics, operator


def S(X, ix, v):
    X = X.copy()
    X[ix] = v
    return X


def I(op, X, y):
    X = X.copy()
    return getattr(operator, op)(X, y)


def AT(uf, X, i, v):
    uf.at(X, i, v)
    return X


def O(uf, x, y):
    out = np.zeros(3, dtype=int)
    uf(x, y, out=out)
    return out


BOUNDS = dict(quick='one value of every input', thorough='')
ASSUMPTIONS = []


def cases(tier):
    out = []
    for i in range(len(FN)):
        out.append(case('e%d' % i, 'run', dict(i=i)))
    return out


def run(c, i):
    rng = random.Random(i + 13)
    def ints(n, k, lo, hi):
        v = []
        for j in range(k):
            x = c.int('%s%d' % (n, j), lo, hi)
            c.assume(x == rng.randint(lo, hi))
            v.append(x)
        return v
    A = np.array(ints('a', 6, -3, 3)).reshape(2, 3)
    B = np.array(ints('b', 6, -3, 3)).reshape(3, 2)
    V = np.array(ints('v', 3, -4, 4))
    W = np.array(ints('w', 3, -4, 4))
    U = np.array(ints('u', 4, 0, 255), dtype=np.uint8)
    P = np.array(ints('p', 6, 0, 1)).astype(bool).reshape(2, 3)
    Q = np.array(ints('q', 8, 0, 1))
    F = np.array(ints('f', 3, -5, 5)) / 4
    ok, v = c.attempt(FN[i], A, B, V, W, U, P, Q, F)
    if ok:
        c.observe('r', v)
        c.observe('dt', str(v.dtype) if isinstance(v, (np.ndarray, np.generic)) and hasattr(v, 'dtype') else '')
    else:
        c.observe('exc', type(v).__name__)
    c.check('x', True)


FN = [
    lambda A, B, V, W, U, P, Q, F: (np.inner(V, W)),
    lambda A, B, V, W, U, P, Q, F: (np.inner(V, W) + 0),
    lambda A, B, V, W, U, P, Q, F: (int(np.inner(V, W))),
    lambda A, B, V, W, U, P, Q, F: (V @ W),
    lambda A, B, V, W, U, P, Q, F: (V.dot(W)),
    lambda A, B, V, W, U, P, Q, F: (V.dot(W) + 1),
    lambda A, B, V, W, U, P, Q, F: (len(set(int(x) for x in V))),
    lambda A, B, V, W, U, P, Q, F: (sorted(set(int(x) for x in V))),
    lambda A, B, V, W, U, P, Q, F: (len({int(x): 1 for x in V})),
    lambda A, B, V, W, U, P, Q, F: (sorted({int(x): 1 for x in V})),
    lambda A, B, V, W, U, P, Q, F: ({int(x) for x in V} & {1, 2}),
    lambda A, B, V, W, U, P, Q, F: (len({int(x) for x in V} | {1, 2})),
    lambda A, B, V, W, U, P, Q, F: (2 ** np.abs(V)),
    lambda A, B, V, W, U, P, Q, F: (2 ** np.abs(W)),
    lambda A, B, V, W, U, P, Q, F: (np.block([[A], [A]])),
    lambda A, B, V, W, U, P, Q, F: (V.min(initial=-9)),
    lambda A, B, V, W, U, P, Q, F: (V.max(initial=9)),
    lambda A, B, V, W, U, P, Q, F: (np.min(A, axis=0, initial=0)),
    lambda A, B, V, W, U, P, Q, F: (S(A, (slice(None), 1), 5)),
    lambda A, B, V, W, U, P, Q, F: (S(A, P, 9)),
    lambda A, B, V, W, U, P, Q, F: (S(A, P, -A[P])),
    lambda A, B, V, W, U, P, Q, F: (S(V, V > 0, W[V > 0])),
    lambda A, B, V, W, U, P, Q, F: (S(V, [0, 2], [7, 8])),
    lambda A, B, V, W, U, P, Q, F: (S(V, slice(None, None, -1), W)),
    lambda A, B, V, W, U, P, Q, F: (S(U, 0, 300 - 50)),
    lambda A, B, V, W, U, P, Q, F: (S(V, V > 0, 0.7)),
    lambda A, B, V, W, U, P, Q, F: (S(F, slice(0, 2), V[:2])),
    lambda A, B, V, W, U, P, Q, F: (S(Q, slice(1, 8, 3), 1)),
    lambda A, B, V, W, U, P, Q, F: (S(np.zeros(3), slice(None), V)),
    lambda A, B, V, W, U, P, Q, F: (S(np.zeros((2, 3), dtype=bool), slice(None), A)),
    lambda A, B, V, W, U, P, Q, F: (S(np.zeros(3, dtype=np.uint8), slice(None), np.abs(V))),
    lambda A, B, V, W, U, P, Q, F: (S(A, np.ix_([0, 1], [0, 2]), 4)),
    lambda A, B, V, W, U, P, Q, F: (I('iadd', V, W)),
    lambda A, B, V, W, U, P, Q, F: (I('isub', V, 3)),
    lambda A, B, V, W, U, P, Q, F: (I('imul', A, V)),
    lambda A, B, V, W, U, P, Q, F: (I('iadd', U, 200)),
    lambda A, B, V, W, U, P, Q, F: (I('iand', U, 60)),
    lambda A, B, V, W, U, P, Q, F: (I('ior', P, A > 0)),
    lambda A, B, V, W, U, P, Q, F: (I('ixor', P, True)),
    lambda A, B, V, W, U, P, Q, F: (I('ilshift', U, 2)),
    lambda A, B, V, W, U, P, Q, F: (I('itruediv', F, 2)),
    lambda A, B, V, W, U, P, Q, F: (I('ifloordiv', V, 2)),
    lambda A, B, V, W, U, P, Q, F: (AT(np.add, np.zeros(9, dtype=int), V + 4, 1)),
    lambda A, B, V, W, U, P, Q, F: (AT(np.add, np.zeros(9), V + 4, W)),
    lambda A, B, V, W, U, P, Q, F: (AT(np.subtract, np.zeros(9, dtype=int), V + 4, W)),
    lambda A, B, V, W, U, P, Q, F: (AT(np.logical_or, np.zeros(9, dtype=bool), V + 4, True)),
    lambda A, B, V, W, U, P, Q, F: (O(np.add, V, W)),
    lambda A, B, V, W, U, P, Q, F: (O(np.maximum, V, W)),
    lambda A, B, V, W, U, P, Q, F: (np.add(V, W, dtype=float)),
    lambda A, B, V, W, U, P, Q, F: (np.add(V, 1.5)),
    lambda A, B, V, W, U, P, Q, F: (np.sum(A > 0, axis=1)),
    lambda A, B, V, W, U, P, Q, F: (np.sum(A[:, None, :] == A[None], axis=-1)),
    lambda A, B, V, W, U, P, Q, F: ((V[:, None] == np.arange(-4, 5)).sum(0)),
    lambda A, B, V, W, U, P, Q, F: ((V[:, None] ^ W).sum()),
    lambda A, B, V, W, U, P, Q, F: (np.abs(V[:, None] - W[None, :]).min(axis=1)),
    lambda A, B, V, W, U, P, Q, F: (np.where(P)[0]),
    lambda A, B, V, W, U, P, Q, F: (np.where(P, A, 0).sum(axis=1)),
    lambda A, B, V, W, U, P, Q, F: (np.where(V > 0, 'a', 'b')),
    lambda A, B, V, W, U, P, Q, F: (np.array([1, 2, 3])[V > 0]),
    lambda A, B, V, W, U, P, Q, F: (np.array([5, 6, 7, 8, 9, 10, 11, 12, 13])[V]),
    lambda A, B, V, W, U, P, Q, F: (np.array([[1, 2], [3, 4]])[Q[:2], Q[2:4]]),
    lambda A, B, V, W, U, P, Q, F: (np.arange(10)[V[0]]),
    lambda A, B, V, W, U, P, Q, F: (np.arange(10)[abs(int(V[0])):]),
    lambda A, B, V, W, U, P, Q, F: (V[abs(int(W[0])) % 3:]),
    lambda A, B, V, W, U, P, Q, F: (list(range(10))[V[0]]),
    lambda A, B, V, W, U, P, Q, F: ([1, 2, 3, 4, 5, 6, 7, 8, 9][int(V[0])]),
    lambda A, B, V, W, U, P, Q, F: ('abcdefghi'[int(V[0])]),
    lambda A, B, V, W, U, P, Q, F: (bytes(9)[int(V[0])]),
    lambda A, B, V, W, U, P, Q, F: (A[int(Q[0])]),
    lambda A, B, V, W, U, P, Q, F: (A[Q[0], Q[1]]),
    lambda A, B, V, W, U, P, Q, F: (A[Q[:2]]),
    lambda A, B, V, W, U, P, Q, F: (A[:, Q[:2]]),
    lambda A, B, V, W, U, P, Q, F: (int(V[0]) // 2, int(V[0]) % 3, -int(V[0]) // 2),
    lambda A, B, V, W, U, P, Q, F: (int(V[0]) >> 1, int(V[0]) & 3, int(V[0]) | 8, int(V[0]) ^ 5, ~int(V[0])),
    lambda A, B, V, W, U, P, Q, F: (int(V[0]) / 4),
    lambda A, B, V, W, U, P, Q, F: (int(V[0]) ** 2),
    lambda A, B, V, W, U, P, Q, F: (int(V[0]) * 1.5),
    lambda A, B, V, W, U, P, Q, F: (float(F[0]) // 1),
    lambda A, B, V, W, U, P, Q, F: (float(F[0]) % 1),
    lambda A, B, V, W, U, P, Q, F: (int(F[0])),
    lambda A, B, V, W, U, P, Q, F: (round(F[0])),
    lambda A, B, V, W, U, P, Q, F: (int(round(float(F[0]) * 3))),
    lambda A, B, V, W, U, P, Q, F: (int(np.floor(F[0]))),
    lambda A, B, V, W, U, P, Q, F: (int(np.ceil(F[0]))),
    lambda A, B, V, W, U, P, Q, F: (np.int64(F[0])),
    lambda A, B, V, W, U, P, Q, F: (np.uint8(U[0]) + np.uint8(10)),
    lambda A, B, V, W, U, P, Q, F: (U[0] + 10),
    lambda A, B, V, W, U, P, Q, F: (U[0] + U[1]),
    lambda A, B, V, W, U, P, Q, F: (U[0] - U[1]),
    lambda A, B, V, W, U, P, Q, F: (int(U[0]) - int(U[1])),
    lambda A, B, V, W, U, P, Q, F: (U[0] * 2),
    lambda A, B, V, W, U, P, Q, F: (U[0] << 1),
    lambda A, B, V, W, U, P, Q, F: (U[0] >> 3),
    lambda A, B, V, W, U, P, Q, F: (U[0] & 7),
    lambda A, B, V, W, U, P, Q, F: (-U[0]),
    lambda A, B, V, W, U, P, Q, F: (~U[0]),
    lambda A, B, V, W, U, P, Q, F: (np.uint8(200) - U),
    lambda A, B, V, W, U, P, Q, F: (np.int16(3) * U),
    lambda A, B, V, W, U, P, Q, F: ((U * 2).astype(int)),
    lambda A, B, V, W, U, P, Q, F: (U.astype(np.uint16) * 300),
    lambda A, B, V, W, U, P, Q, F: (U.astype(np.int32) - 128),
    lambda A, B, V, W, U, P, Q, F: (np.uint16(1) << U % 16),
    lambda A, B, V, W, U, P, Q, F: (U / 255),
    lambda A, B, V, W, U, P, Q, F: (np.bitwise_or.reduce(U)),
    lambda A, B, V, W, U, P, Q, F: (np.bitwise_and.reduce(U)),
    lambda A, B, V, W, U, P, Q, F: (np.add.reduce(U)),
    lambda A, B, V, W, U, P, Q, F: (np.add.reduce(P)),
    lambda A, B, V, W, U, P, Q, F: (np.logical_xor.reduce(P, axis=1)),
    lambda A, B, V, W, U, P, Q, F: (sum(U)),
    lambda A, B, V, W, U, P, Q, F: (sum(P)),
    lambda A, B, V, W, U, P, Q, F: (sum(P.ravel())),
    lambda A, B, V, W, U, P, Q, F: (sum(int(x) for x in U)),
    lambda A, B, V, W, U, P, Q, F: (max(U) - min(U)),
    lambda A, B, V, W, U, P, Q, F: (np.max(U) + np.uint8(1)),
    lambda A, B, V, W, U, P, Q, F: ((P != (A > 0)).sum()),
    lambda A, B, V, W, U, P, Q, F: (np.mean(P != (A > 0))),
    lambda A, B, V, W, U, P, Q, F: (P == P.astype(int)),
    lambda A, B, V, W, U, P, Q, F: (P < 1),
    lambda A, B, V, W, U, P, Q, F: (P - 1),
    lambda A, B, V, W, U, P, Q, F: (P.astype(int) * A),
    lambda A, B, V, W, U, P, Q, F: (P * F),
    lambda A, B, V, W, U, P, Q, F: (P / 2),
    lambda A, B, V, W, U, P, Q, F: (P @ B),
    lambda A, B, V, W, U, P, Q, F: (A @ P.T),
    lambda A, B, V, W, U, P, Q, F: (-P.astype(int)),
    lambda A, B, V, W, U, P, Q, F: (P.astype(float) ** 2),
    lambda A, B, V, W, U, P, Q, F: (not V.any()),
    lambda A, B, V, W, U, P, Q, F: (bool(P[0, 0]) and V[0] > 0),
    lambda A, B, V, W, U, P, Q, F: (V[0] if V[0] > W[0] else W[0]),
    lambda A, B, V, W, U, P, Q, F: (V[0] and W[0]),
    lambda A, B, V, W, U, P, Q, F: (V[0] or W[0]),
    lambda A, B, V, W, U, P, Q, F: ((V[0] > 0) + (W[0] > 0)),
    lambda A, B, V, W, U, P, Q, F: (1 - (V[0] > 0).astype(int)),
    lambda A, B, V, W, U, P, Q, F: (1 - (V > 0)),
    lambda A, B, V, W, U, P, Q, F: (2 * (V > 0) - 1),
    lambda A, B, V, W, U, P, Q, F: ((V > 0) * (W > 0)),
    lambda A, B, V, W, U, P, Q, F: ((V > 0) & (W > 0) | (V == 0)),
    lambda A, B, V, W, U, P, Q, F: (int(V[0] > 0)),
    lambda A, B, V, W, U, P, Q, F: (float(V[0] > 0)),
    lambda A, B, V, W, U, P, Q, F: (np.int_(V > 0)),
    lambda A, B, V, W, U, P, Q, F: (np.array(V > 0, dtype=np.uint8)),
    lambda A, B, V, W, U, P, Q, F: (np.array(V > 0, dtype=np.int8) - np.array(W > 0, dtype=np.uint8)),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U])[1:3]),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]) + b'x'),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]) == bytes([int(u) for u in U[::-1]])),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]) < b'zzzz'),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]).find(b'\x00')),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]).hex()),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]).startswith(bytes([int(U[0])]))),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]).count(b'\x03')),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U])[::-1]),
    lambda A, B, V, W, U, P, Q, F: (bytearray([int(u) for u in U])),
    lambda A, B, V, W, U, P, Q, F: (list(bytes([int(u) for u in U]))),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]) * 2),
    lambda A, B, V, W, U, P, Q, F: (bytes([int(u) for u in U]).ljust(6, b'\0')),
    lambda A, B, V, W, U, P, Q, F: (b''.join([bytes([int(u)]) for u in U])),
    lambda A, B, V, W, U, P, Q, F: (b'a' in bytes([int(u) for u in U])),
    lambda A, B, V, W, U, P, Q, F: (int(U[0]) in bytes([int(u) for u in U])),
    lambda A, B, V, W, U, P, Q, F: (struct.unpack('<HH', bytes([int(u) for u in U]))),
    lambda A, B, V, W, U, P, Q, F: (struct.unpack('>i', bytes([int(u) for u in U]))),
    lambda A, B, V, W, U, P, Q, F: (struct.unpack('<bB', bytes([int(u) for u in U[:2]]))),
    lambda A, B, V, W, U, P, Q, F: (struct.unpack_from('>H', bytes([int(u) for u in U]), 1)),
    lambda A, B, V, W, U, P, Q, F: (struct.pack('<hB', int(V[0]), int(U[0]))),
    lambda A, B, V, W, U, P, Q, F: (struct.pack('>I', int(U[0]) * 1000)),
    lambda A, B, V, W, U, P, Q, F: (struct.pack('<b', int(V[0]))),
    lambda A, B, V, W, U, P, Q, F: (struct.pack('<3B', *[int(u) for u in U[:3]])),
    lambda A, B, V, W, U, P, Q, F: (int.from_bytes(bytes([int(u) for u in U]), 'big', signed=True)),
    lambda A, B, V, W, U, P, Q, F: (int(U[0]).to_bytes(1, 'little') + int(U[1]).to_bytes(2, 'little')),
    lambda A, B, V, W, U, P, Q, F: ((-int(np.abs(V[0]))).to_bytes(2, 'big', signed=True)),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(bytes=bytes([int(u) for u in U])).uint),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(bytes=bytes([int(u) for u in U])).int),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(bytes=bytes([int(u) for u in U]))[3:9].uint),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(bytes=bytes([int(u) for u in U]))[-5:].uint),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(uint=int(U[0]), length=9)),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(int=int(V[0]), length=5)),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits([int(q) for q in Q]).uint),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits([int(q) for q in Q]).bytes),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q).count(True)),
    lambda A, B, V, W, U, P, Q, F: ((bitstring.Bits(Q) ^ bitstring.Bits(Q[::-1])).count(1)),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q) == bitstring.Bits(Q[::-1])),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q).any(True)),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q).tobytes()),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q).hex),
    lambda A, B, V, W, U, P, Q, F: ((~bitstring.Bits(Q)).uint),
    lambda A, B, V, W, U, P, Q, F: ((bitstring.Bits(Q) + bitstring.Bits('0b01')).uint),
    lambda A, B, V, W, U, P, Q, F: ((bitstring.Bits(Q) << 2).uint),
    lambda A, B, V, W, U, P, Q, F: ((bitstring.Bits(Q) >> 2).uint),
    lambda A, B, V, W, U, P, Q, F: ([int(b) for b in bitstring.Bits(Q)]),
    lambda A, B, V, W, U, P, Q, F: (np.array(bitstring.Bits(Q), dtype=int)),
    lambda A, B, V, W, U, P, Q, F: (list(bitstring.Bits(Q).cut(3))),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q)[::-1].uint),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q).uintle),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(bytes=bytes([int(u) for u in U])).uintle),
    lambda A, B, V, W, U, P, Q, F: (bitstring.BitArray(Q).uint),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q).unpack('uint:3, uint:5')),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(Q).find('0b1')),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits(bin=''.join(str(int(q)) for q in Q)).uint),
    lambda A, B, V, W, U, P, Q, F: (int(''.join(str(int(q)) for q in Q), 2)),
    lambda A, B, V, W, U, P, Q, F: (''.join('1' if q else '0' for q in Q)),
    lambda A, B, V, W, U, P, Q, F: (collections.Counter(int(v) for v in V)[1]),
    lambda A, B, V, W, U, P, Q, F: (collections.deque([int(v) for v in V], maxlen=2)[0]),
    lambda A, B, V, W, U, P, Q, F: (list(itertools.accumulate(int(v) for v in V))),
    lambda A, B, V, W, U, P, Q, F: (list(itertools.chain([int(V[0])], [2]))),
    lambda A, B, V, W, U, P, Q, F: ([k for k, g in itertools.groupby([int(q) for q in Q])]),
    lambda A, B, V, W, U, P, Q, F: (functools.reduce(lambda a, b: a ^ b, [int(u) for u in U])),
    lambda A, B, V, W, U, P, Q, F: (math.floor(F[0]), math.ceil(F[0])),
    lambda A, B, V, W, U, P, Q, F: (math.sqrt(abs(V[0]))),
    lambda A, B, V, W, U, P, Q, F: (math.log2(abs(int(V[0])) + 1)),
    lambda A, B, V, W, U, P, Q, F: (math.prod([int(v) for v in V])),
    lambda A, B, V, W, U, P, Q, F: (math.isclose(F[0], 0.5)),
    lambda A, B, V, W, U, P, Q, F: (math.exp(V[0])),
    lambda A, B, V, W, U, P, Q, F: (math.erf(F[0])),
    lambda A, B, V, W, U, P, Q, F: (operator.itemgetter(1)(list(V))),
    lambda A, B, V, W, U, P, Q, F: (sorted(range(3), key=lambda i: (V[i], i))),
    lambda A, B, V, W, U, P, Q, F: (sorted([(int(v), i) for i, v in enumerate(V)])),
    lambda A, B, V, W, U, P, Q, F: (max(V, key=abs)),
    lambda A, B, V, W, U, P, Q, F: (max(int(v) for v in V)),
    lambda A, B, V, W, U, P, Q, F: (max(V[0], W[0], 1)),
    lambda A, B, V, W, U, P, Q, F: (min(int(V[0]), 2)),
    lambda A, B, V, W, U, P, Q, F: (divmod(int(U[0]), 10)),
    lambda A, B, V, W, U, P, Q, F: ([V[i] for i in np.argsort(V, kind='stable')]),
    lambda A, B, V, W, U, P, Q, F: ([i for i, v in enumerate(V) if v > 0]),
    lambda A, B, V, W, U, P, Q, F: (next((i for i, v in enumerate(V) if v > 0), -1)),
    lambda A, B, V, W, U, P, Q, F: ({int(v): i for i, v in enumerate(V)}.get(2, -1)),
    lambda A, B, V, W, U, P, Q, F: (tuple(int(v) for v in V) == tuple(int(w) for w in W)),
    lambda A, B, V, W, U, P, Q, F: ([int(v) for v in V] == [int(w) for w in W]),
    lambda A, B, V, W, U, P, Q, F: ([int(v) for v in V] < [int(w) for w in W]),
    lambda A, B, V, W, U, P, Q, F: (np.array([int(v) for v in V]).dtype == V.dtype),
    lambda A, B, V, W, U, P, Q, F: (isinstance(V[0], np.integer), isinstance(int(V[0]), int), isinstance(F[0], float), isinstance(P[0, 0], np.bool_)),
    lambda A, B, V, W, U, P, Q, F: (V.dtype.kind, U.dtype.itemsize, F.dtype.name),
    lambda A, B, V, W, U, P, Q, F: ((P[0, 0] + P[0, 1] + P[1, 1]).dtype.name),
    lambda A, B, V, W, U, P, Q, F: (((P[0, 0] | True) + (P[0, 1] | True)).dtype.name),
    lambda A, B, V, W, U, P, Q, F: (((P[0, 0] | True) + (P[0, 1] | True))),
    lambda A, B, V, W, U, P, Q, F: (((P[0, 0] == P[0, 0]) + (P[0, 1] == P[0, 1]))),
    lambda A, B, V, W, U, P, Q, F: ((np.sum([P[0, 0], P[0, 1], P[1, 2]])).dtype.name),
    lambda A, B, V, W, U, P, Q, F: ((P[0, 0] + P[0, 0]) + 0),
    lambda A, B, V, W, U, P, Q, F: ((P[0, 0] + P[0, 1] + P[1, 1] + P[1, 2] + P[1, 0])),
    lambda A, B, V, W, U, P, Q, F: (type(P[0, 0] * P[0, 1]).__name__),
    lambda A, B, V, W, U, P, Q, F: ((P[0, 0] * P[0, 1]).dtype.name),
    lambda A, B, V, W, U, P, Q, F: (struct.unpack_from('>H', bytes([int(u) for u in U]), 3)),
    lambda A, B, V, W, U, P, Q, F: (struct.Struct('<H').unpack_from(bytes([int(u) for u in U]), 2)),
    lambda A, B, V, W, U, P, Q, F: (bitstring.Bits('0b' + ''.join(str(int(q)) for q in Q)).uint),
    lambda A, B, V, W, U, P, Q, F: (P[0, 0] - P[0, 1]),
]
