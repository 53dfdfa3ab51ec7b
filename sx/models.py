"""Models of Python builtins and library objects used by the repository, over symbolic values."""
import types
import array as _array
import builtins
import copy as _copy
import itertools
import json as _json
import math
import operator
import struct as _struct
import numpy as np
import z3
import bitstring
from . import core, npmodel
from .core import (E, SB, SI, SF, SR, SYM_TYPES, is_sym, Unsupported, tag, untag, ite, mk_bool, as_bool_expr, binop, cmpop,
                   table_apply, NPF, NPB, NPI, b2i, wrap_int, realise, sum_syms, finite)
from .arrays import SA, GA, OBJ, obj_array, wrap, asSA, cast_elem, make_array, any_eq

U8 = np.dtype(np.uint8)


def clamp_slice(k, n):
    """concrete (start, stop, step) for a slice with possibly symbolic bounds"""
    if k.step is not None and is_sym(k.step):
        k = slice(k.start, k.stop, realise(k.step))

    def c(v):
        if v is None or not is_sym(v):
            return v
        v = b2i(v)
        v = ite(cmpop('lt', v, -n), -n, v)
        v = ite(cmpop('gt', v, n), n, v)
        return int(realise(v)) if is_sym(v) else int(v)
    return slice(c(k.start), c(k.stop), k.step)


def byte_of(x):
    """validate/convert an element for a bytes-like container"""
    if is_sym(x):
        x = b2i(untag(x))
        if type(x) is not SI:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if x.lo < 0 or x.hi > 255:
            if not bool(cmpop('ge', x, 0)) or not bool(cmpop('le', x, 255)):
                raise ValueError("bytes must be in range(0, 256)")
            return SI(z3.Extract(7, 0, core.ext(x, max(8, x.e.size()))), 0, 255, None, None, x.lin and x.lin[:8])
        return x
    if isinstance(x, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    v = operator.index(x)
    if not 0 <= v <= 255:
        raise ValueError("bytes must be in range(0, 256)")
    return v


class _Seq:
    """common behaviour of byte containers"""
    __slots__ = ()

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(list(self.items))

    def concrete(self):
        return self.mk_native([int(realise(x)) if is_sym(x) else x for x in self.items])

    def __hash__(self):
        if E.idhash:
            return id(self) >> 4
        return hash(self.concrete())

    def has_sym(self):
        return any(is_sym(x) for x in self.items)

    def _other(self, o):
        if isinstance(o, _Seq):
            return o.items
        if isinstance(o, (bytes, bytearray, _array.array)) and type(o) in (bytes, bytearray, _array.array):
            return list(o)
        return None

    def __eq__(self, o):
        it = self._other(o)
        if it is None:
            return False
        if len(it) != len(self.items):
            return False
        es = []
        for a, b in zip(self.items, it):
            c = (a == b)
            if is_sym(c):
                es.append(c.e)
            elif not c:
                return False
        return mk_bool(z3.simplify(z3.And(es))) if es else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return mk_bool(z3.Not(r.e)) if is_sym(r) else not r

    def __contains__(self, x):
        return bool(sx_in(x, list(self.items)))

    def __bool__(self):
        return len(self.items) > 0

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ''.join(E.token(x) if is_sym(x) else ('\\x%02x' % x if isinstance(
            x, int) else str(x)) for x in self.items))

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __lt__(self, o):
        return self.concrete() < (o.concrete() if isinstance(o, _Seq) else o)

    def tobytes(self):
        return SBytes(list(self.items))

    def __reduce_ex__(self, p):
        raise Unsupported("pickle")

    def __copy__(self):
        return type(self)._new(self, list(self.items))

    def __deepcopy__(self, memo):
        return type(self)._new(self, list(self.items))

    def __reversed__(self):
        return iter(list(self.items)[::-1])

    def index(self, v, *a):
        for i, x in enumerate(self.items):
            if i >= (a[0] if a else 0) and bool(x == v):
                return i
        raise ValueError("not found")

    def count(self, v):
        if isinstance(v, (bytes, bytearray)) or isinstance(v, _Seq):
            if len(v) != 1:
                return self.concrete().count(v)
            v = list(v)[0]
        return sum_syms([b2i(x == v) if is_sym(x == v) else int(x == v) for x in self.items])


class SBytes(_Seq):
    __slots__ = ('items', 'mut')

    def __init__(self, items, mut=False):
        self.items = items
        self.mut = mut

    @staticmethod
    def _new(self, items):
        return SBytes(items, self.mut)

    @property
    def __class__(self):
        return bytearray if self.mut else bytes

    def mk_native(self, l):
        return bytearray(l) if self.mut else bytes(l)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return norm_bytes(self.items[clamp_slice(k, len(self.items))], self.mut)
        if is_sym(k):
            return sx_getitem(self.items, k)
        return self.items[k]

    def _need_mut(self):
        if not self.mut:
            raise TypeError("'bytes' object does not support item assignment")

    def __setitem__(self, k, v):
        self._need_mut()
        if isinstance(k, slice):
            self.items[clamp_slice(k, len(self.items))] = [byte_of(x) for x in v]
        else:
            self.items[realise(k) if is_sym(k) else k] = byte_of(v)

    def __delitem__(self, k):
        self._need_mut()
        del self.items[k]

    def append(self, v):
        self._need_mut()
        self.items.append(byte_of(v))

    def extend(self, v):
        self._need_mut()
        self.items.extend(byte_of(x) for x in v)

    def insert(self, i, v):
        self._need_mut()
        self.items.insert(i, byte_of(v))

    def pop(self, i=-1):
        self._need_mut()
        return self.items.pop(i)

    def reverse(self):
        self.items.reverse()

    def __add__(self, o):
        it = self._other(o)
        if it is None:
            raise TypeError("can't concat to bytes")
        return norm_bytes(self.items + list(it), self.mut)

    def __radd__(self, o):
        it = self._other(o)
        if it is None:
            raise TypeError("can't concat to bytes")
        return norm_bytes(list(it) + self.items, isinstance(o, bytearray))

    def __iadd__(self, o):
        if self.mut:
            self.items.extend(byte_of(x) for x in o)
            return self
        return self + o

    def __mul__(self, n):
        return norm_bytes(self.items * n, self.mut)

    __rmul__ = __mul__

    def hex(self, *a):
        return ''.join(E.token(SI2(x, 'hex')) if is_sym(x) else '%02x' % x for x in self.items) if False else \
            SHex(list(self.items)) if self.has_sym() and not a else self.concrete().hex(*a)

    def startswith(self, p, *a):
        if a:
            return self.concrete().startswith(p, *a)
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        return len(p) <= len(self) and self[:len(p)] == p

    def join(self, seq):
        out = []
        for i, s in enumerate(seq):
            if i:
                out += self.items
            out += list(s)
        return norm_bytes(out)

    def decode(self, *a, **k):
        return self.concrete().decode(*a, **k)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


class SHex:
    """hex string of symbolic bytes (only survives json / fromhex round trips)"""
    def __init__(self, items):
        self.items = items

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if isinstance(o, SHex):
            return SBytes(self.items) == SBytes(o.items)
        if not isinstance(o, str) or len(o) != 2 * len(self.items) or any(x not in '0123456789abcdef' for x in o):
            return False
        return SBytes(self.items) == bytes.fromhex(o)

    def __ne__(self, o):
        r = self == o
        return mk_bool(z3.Not(r.e)) if is_sym(r) else not r

    def __hash__(self):
        return hash(self.conc())

    def conc(self):
        return bytes(int(realise(x)) if is_sym(x) else x for x in self.items).hex()

    def __str__(self):
        return self.conc()

    def __len__(self):
        return 2 * len(self.items)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.conc(), n)


def norm_bytes(items, mut=False):
    """native bytes when everything is concrete"""
    items = list(items)
    if not mut and not any(is_sym(x) for x in items):
        return bytes(int(x) for x in items)
    return SBytes(items, mut)


class SArr(_Seq):
    """array.array"""
    __slots__ = ('items', 'typecode')

    def __init__(self, items, typecode):
        self.items = items
        self.typecode = typecode

    @staticmethod
    def _new(self, items):
        return SArr(items, self.typecode)

    @property
    def __class__(self):
        return _array.array

    @property
    def itemsize(self):
        return _array.array(self.typecode).itemsize

    @property
    def np_dtype(self):
        return np.frombuffer(_array.array(self.typecode, [0]), dtype=np.uint8).dtype if self.typecode == 'B' else \
            np.dtype(self.typecode)

    def mk_native(self, l):
        return _array.array(self.typecode, l)

    def native(self, f):
        return _array.array(self.typecode, [int(f(x)) for x in self.items])

    def conv(self, v):
        if self.typecode == 'B':
            try:
                return byte_of(v)
            except ValueError:
                raise OverflowError("unsigned byte integer is greater than maximum")
        return v

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SArr(self.items[clamp_slice(k, len(self.items))], self.typecode)
        if is_sym(k):
            return sx_getitem(self.items, k)
        return self.items[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.items[clamp_slice(k, len(self.items))] = list(v.items)
        else:
            self.items[realise(k) if is_sym(k) else k] = self.conv(v)

    def append(self, v):
        self.items.append(self.conv(v))

    def extend(self, v):
        self.items.extend(self.conv(x) for x in v)

    def insert(self, i, v):
        self.items.insert(i, self.conv(v))

    def pop(self, i=-1):
        return self.items.pop(i)

    def tolist(self):
        return list(self.items)

    def tobytes(self):
        if self.typecode not in 'Bb':
            return self.concrete().tobytes()
        return norm_bytes(self.items)

    def __add__(self, o):
        return SArr(self.items + list(o), self.typecode)

    def __iadd__(self, o):
        self.items.extend(self.conv(x) for x in o)
        return self

    def __mul__(self, n):
        return SArr(self.items * n, self.typecode)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


class SymBits:
    """bitstring.Bits / BitArray: list of z3 Bools or python bools"""
    __slots__ = ('items', 'cls')

    def __init__(self, items, cls=bitstring.Bits):
        self.items = items       # list of SB / bool
        self.cls = cls

    @property
    def __class__(self):
        return self.cls

    def bit_list(self):
        return list(self.items)

    def native(self, f):
        return self.cls([bool(f(x)) for x in self.items])

    def concrete(self):
        return self.cls([bool(x) for x in self.items])

    def __len__(self):
        return len(self.items)

    len = property(__len__)
    length = property(__len__)

    def __iter__(self):
        return iter(list(self.items))

    def _o(self, o):
        if isinstance(o, SymBits):
            return o.items
        return make_bits(bitstring.Bits, o).items

    def _bitop(self, f, o):
        b = self._o(o)
        if len(b) != len(self.items):
            raise ValueError("Bitstrings must have the same length")
        if f is z3.Xor:
            return SymBits([mk_bool(core.xor_expr(core.xor2(core.xset(as_bool_expr(x)), core.xset(as_bool_expr(y)))))
                            for x, y in zip(self.items, b)], self.cls)
        return SymBits([mk_bool(z3.simplify(f(as_bool_expr(x), as_bool_expr(y)))) for x, y in zip(self.items, b)], self.cls)

    def __xor__(self, o):
        return self._bitop(z3.Xor, o)

    __rxor__ = __xor__

    def __and__(self, o):
        return self._bitop(z3.And, o)

    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(z3.Or, o)

    __ror__ = __or__

    def __lshift__(self, n):
        if n < 0:
            raise ValueError("Cannot shift by a negative amount.")
        if not self.items:
            raise ValueError("Cannot shift an empty bitstring.")
        n = min(realise(n), len(self.items))
        return SymBits(self.items[n:] + [False] * n, self.cls)

    def __rshift__(self, n):
        if n < 0:
            raise ValueError("Cannot shift by a negative amount.")
        if not self.items:
            raise ValueError("Cannot shift an empty bitstring.")
        n = min(realise(n), len(self.items))
        return SymBits([False] * n + self.items[:len(self.items) - n], self.cls)

    def __invert__(self):
        return SymBits([mk_bool(z3.simplify(z3.Not(as_bool_expr(x)))) for x in self.items], self.cls)

    def __add__(self, o):
        return SymBits(self.items + list(self._o(o)), self.cls)

    def __radd__(self, o):
        return SymBits(list(self._o(o)) + self.items, self.cls)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBits(self.items[clamp_slice(k, len(self.items))], self.cls)
        return self.items[realise(k) if is_sym(k) else k]

    def __eq__(self, o):
        if not isinstance(o, (SymBits, bitstring.Bits)):
            return False
        b = self._o(o)
        if len(b) != len(self.items):
            return False
        return mk_bool(z3.simplify(z3.And([as_bool_expr(x) == as_bool_expr(y) for x, y in zip(self.items, b)]))) if b else True

    def __ne__(self, o):
        r = self == o
        return mk_bool(z3.Not(r.e)) if is_sym(r) else not r

    def __hash__(self):
        return hash(self.concrete())

    def count(self, value):
        es = [b2i(x) if is_sym(x) else int(x) for x in self.items]
        ones = sum_syms(es)
        v = bool(value)
        return ones if v else len(es) - ones

    def any(self, value, pos=None):
        return truth_list(self.items if value else (~self).items, any_=True) if pos is None else self.concrete().any(value, pos)

    def all(self, value, pos=None):
        return truth_list(self.items if value else (~self).items, any_=False) if pos is None else self.concrete().all(value, pos)

    def tobytes(self):
        bits = [as_bool_expr(x) for x in self.items]
        while len(bits) % 8:
            bits.append(core.FALSE)
        return norm_bytes([npmodel.bits_to_byte(bits[i:i + 8]) for i in range(0, len(bits), 8)])

    @property
    def bytes(self):
        if len(self.items) % 8:
            raise bitstring.InterpretError("Cannot interpret as bytes unambiguously - not multiple of 8 bits.")
        return self.tobytes()

    @property
    def uint(self):
        if not self.items:
            raise bitstring.InterpretError("Cannot interpret a zero length bitstring as an integer.")
        return core.lin_int([core.xset(as_bool_expr(x)) for x in reversed(self.items)])

    def __bool__(self):
        return len(self.items) > 0

    def __str__(self):
        return ''.join(E.token(b2i(x)) if is_sym(x) else str(int(x)) for x in self.items)

    __repr__ = __str__

    @property
    def bin(self):
        return str(self)

    def cut(self, bits, start=None, end=None, count=None):
        if bits <= 0:
            raise ValueError("Cannot cut - bits must be >= 0.")
        its = self.items[start or 0:len(self.items) if end is None else end]
        n = 0
        while its and (count is None or n < count):
            if len(its) < bits:
                if count is None:
                    yield SymBits(its, self.cls)
                return
            yield SymBits(its[:bits], self.cls)
            its = its[bits:]
            n += 1

    def __copy__(self):
        return SymBits(list(self.items), self.cls)

    def __deepcopy__(self, memo):
        return SymBits(list(self.items), self.cls)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(self.concrete(), name)
        return v


def truth_list(xs, any_):
    es = [as_bool_expr(x) for x in xs]
    return mk_bool(z3.simplify((z3.Or if any_ else z3.And)(es))) if es else (not any_)


def make_bits(cls, auto=None, /, length=None, offset=None, **kw):
    """bitstring.Bits(...) constructor"""
    if 'auto' in kw:
        auto = kw.pop('auto')
    if 'bytes' in kw:
        b = kw['bytes']
        its = list(b)
        bits = []
        for x in its:
            for i in range(7, -1, -1):
                v = core.self_bit(b2i(untag(x)), i) if is_sym(x) else (int(x) >> i) & 1
                bits.append(mk_bool(z3.simplify(as_bool_expr(v))) if is_sym(v) else bool(v))
        off = offset or 0
        bits = bits[off:] if length is None else bits[off:off + length]
        return SymBits(bits, cls)
    if 'uint' in kw and is_sym(kw['uint']):
        x = b2i(untag(kw['uint']))
        if type(x) is not SI:
            x = realise(x)
            return make_bits(cls, uint=x, length=length)
        if length is None:
            raise bitstring.CreationError("A non-zero length must be specified with a uint initialiser.")
        if x.lo < 0 and bool(cmpop('lt', x, 0)):
            raise bitstring.CreationError("uint cannot be initialised with a negative number.")
        if x.hi >= 1 << length and bool(cmpop('ge', x, 1 << length)):
            raise bitstring.CreationError("too large an unsigned integer")
        bits = []
        for i in range(length - 1, -1, -1):
            v = core.self_bit(x, i)
            bits.append(mk_bool(z3.simplify(as_bool_expr(v))) if is_sym(v) else bool(v))
        return SymBits(bits, cls)
    if E.tokens and (isinstance(auto, str) or isinstance(kw.get('bin'), str)):
        t = auto if isinstance(auto, str) else kw['bin']
        if any(x in E.tokens for x in t):
            t = t.replace('_', '').replace(' ', '')
            t = t[2:] if t[:2] in ('0b', '0B') else t
            its = []
            for x in t:
                if x in E.tokens:
                    v = E.tokens[x]
                    if type(v) is not SI or v.lo < 0 or v.hi > 1:
                        raise Unsupported("bits from text")
                    its.append(mk_bool(z3.simplify(as_bool_expr(v))))
                elif x in '01':
                    its.append(x == '1')
                else:
                    raise bitstring.CreationError("Invalid character in bin initialiser")
            return SymBits(its, cls)
    if auto is not None:
        if isinstance(auto, SymBits):
            return SymBits(list(auto.items), cls)
        if isinstance(auto, bitstring.Bits):
            return SymBits([bool(x) for x in auto], cls)
        if isinstance(auto, (SBytes, bytes, bytearray)):
            return make_bits(cls, bytes=auto)
        if type(auto) in (SA, GA):
            A = asSA(auto)
            if A.a.ndim != 1:
                auto = A.concrete()
            else:
                return SymBits([mk_bool(z3.simplify(as_bool_expr(x))) if is_sym(x) else bool(x) for x in A.a], cls)
        if isinstance(auto, (list, tuple)) and not is_sym(auto):
            return SymBits([mk_bool(z3.simplify(as_bool_expr(x))) if is_sym(x) else bool(x) for x in auto], cls)
        if is_sym(auto):
            auto = realise(auto)
    kw = {k: (realise(v) if is_sym(v) else v) for k, v in kw.items()}
    nat = cls(auto, length=length, offset=offset, **kw) if auto is not None else cls(length=length, offset=offset, **kw)
    return SymBits([bool(x) for x in nat], cls)


# -- opaque floats (bit patterns) -------------------------------------------------------
class OF:
    """float unpacked from symbolic bytes; keeps the bit pattern, realised when it is used arithmetically"""
    __slots__ = ('items', 'code')

    def __init__(self, items, code):
        self.items = items        # little-endian bytes
        self.code = code

    @property
    def __class__(self):
        return float

    def concrete(self):
        e = z3.Concat([core.ext(x, 8) for x in reversed(self.items)])
        v = E.realise_expr(e, limit=40)
        return _struct.unpack('<' + self.code, v.to_bytes(len(self.items), 'little'))[0]

    def __eq__(self, o):
        if isinstance(o, OF) and o.code == self.code:
            return SBytes(self.items) == SBytes(o.items)
        return self.concrete() == o

    def __ne__(self, o):
        r = self == o
        return mk_bool(z3.Not(r.e)) if is_sym(r) else not r

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return repr(self.concrete())

    __repr__ = __str__

    def __format__(self, s):
        return format(self.concrete(), s)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.concrete(), n)


def _of_bin(name):
    def f(self, *o):
        return getattr(operator, name)(self.concrete(), *[x.concrete() if isinstance(x, OF) else x for x in o])
    return f


def _of_rbin(name):
    def f(self, o):
        return getattr(operator, name)(o, self.concrete())
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    setattr(OF, '__%s__' % _n, _of_bin(_n))
    setattr(OF, '__r%s__' % _n, _of_rbin(_n))
for _n in ('lt', 'le', 'gt', 'ge', 'neg', 'abs', 'pos'):
    setattr(OF, '__%s__' % _n, _of_bin(_n))
OF.__float__ = lambda self: self.concrete()
OF.__int__ = lambda self: int(self.concrete())
OF.__round__ = lambda self, n=None: round(self.concrete(), n) if n is not None else round(self.concrete())
OF.__bool__ = lambda self: bool(self.concrete())


# -- struct ----------------------------------------------------------------------------
SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4,
         'd': 8, 's': 1, 'e': 2}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    fmt = fmt.replace(' ', '')
    order = '@'
    if fmt and fmt[0] in '<>!=@':
        order, fmt = fmt[0], fmt[1:]
    if order == '@':
        if len(set(fmt) - set('bBcsx?0123456789')) and fmt:
            # native alignment: only supported for byte-sized items or a single item
            if not (len(fmt) == 1 and fmt in SIZES):
                raise Unsupported("native struct alignment")
    out = []
    num = ''
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ''
        if ch == 's':
            out.append(('s', n))
        else:
            out += [(ch, SIZES[ch])] * n
    return ('>' if order in '>!' else '<'), out


def int_from_items(items, little, signed):
    its = list(items) if not little else list(items)[::-1]      # most significant first
    n = len(its)
    if not signed and all(not is_sym(x) or type(x) is SI and x.lin is not None and len(x.lin) <= 8 for x in its) \
            and any(is_sym(x) for x in its):
        lin = ()
        for x in reversed(its):
            l = core.lin_of(x)
            lin += l + (core.ZERO,) * (8 - len(l))
        return core.lin_int(lin)
    if not any(is_sym(x) for x in its):
        return int.from_bytes(bytes(int(x) for x in its), 'big', signed=signed)
    if n == 1:
        e = core.ext(b2i(untag(its[0])), 8)
    else:
        e = z3.Concat([core.ext(b2i(untag(x)) if is_sym(x) else int(x), 8) for x in its])
    e = z3.simplify(e)
    if signed:
        ulo, uhi, top = 0, 0, 1 << (8 * n - 1)
        for x in its:
            a, b = (max(0, x.lo), x.hi) if type(x) is SI else (0, 255) if is_sym(x) else (int(x), int(x))
            ulo, uhi = 256 * ulo + a, 256 * uhi + b
        if uhi < top or ulo >= top:
            d = 2 * top if ulo >= top else 0
            return core.norm_si(e, ulo - d, uhi - d)
        return SI(e, -top, top - 1)
    if n == 1 and type(its[0]) is SI:
        return SI(e, max(0, its[0].lo), its[0].hi) if its[0].e.size() == 8 else untag(its[0])
    return SI(e, 0, (1 << (8 * n)) - 1)


def buf_items(buf):
    if isinstance(buf, _Seq):
        return list(buf.items)
    if type(buf) is SA:
        return list(array_tobytes(buf))
    return list(bytes(buf))


def st_unpack(fmt, buf, prefix=False):
    items = buf_items(buf)
    if not any(is_sym(x) for x in items):
        return (_struct.unpack)(fmt, bytes(int(x) for x in items))
    order, codes = parse_fmt(fmt)
    total = sum(s for _, s in codes)
    if total != len(items):
        raise _struct.error("unpack requires a buffer of %d bytes" % total)
    out = []
    p = 0
    for c, s in codes:
        chunk = items[p:p + s]
        p += s
        if c == 'x':
            continue
        if c == 's' or c == 'c':
            out.append(norm_bytes(chunk))
        elif c == '?':
            out.append(mk_bool(as_bool_expr(chunk[0])) if is_sym(chunk[0]) else bool(chunk[0]))
        elif c in 'fde':
            le = chunk if order == '<' else chunk[::-1]
            if any(is_sym(x) for x in le):
                out.append(OF(le, c))
            else:
                out.append(_struct.unpack('<' + c, bytes(int(x) for x in le))[0])
        else:
            out.append(int_from_items(chunk, order == '<', c.islower()))
    return tuple(out)


def st_unpack_from(fmt, buffer, offset=0):
    items = buf_items(buffer)
    n = _struct.calcsize(fmt)
    offset = realise(offset) if is_sym(offset) else offset
    if not any(is_sym(x) for x in items):
        return _struct.unpack_from(fmt, bytes(int(x) for x in items), offset)
    if offset < 0:
        offset += len(items)
    if offset < 0 or len(items) - offset < n:
        raise _struct.error("unpack_from requires a buffer of at least %d bytes" % (n + offset))
    return st_unpack(fmt, norm_bytes(items[offset:offset + n]))


def int_to_items(v, n, little, signed, err):
    v = b2i(untag(v))
    if type(v) is not SI:
        if is_sym(v):
            raise err("required argument is not an integer")
        v = operator.index(v)
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if not lo <= v <= hi:
            raise err("argument out of range")
        return list(int(v).to_bytes(n, 'little' if little else 'big', signed=signed))
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if v.lo < lo or v.hi > hi:
        if not (bool(cmpop('ge', v, lo)) and bool(cmpop('le', v, hi))):
            raise err("argument out of range")
    if v.lin is not None:
        out = [core.lin_int(v.lin[8 * i:8 * i + 8]) for i in range(n)]
        return out if little else out[::-1]
    e = core.ext(v, 8 * n)
    out = []
    for i in range(n):
        out.append(core.lin_int(core.bv_lin(z3.Extract(8 * i + 7, 8 * i, e))))
    return out if little else out[::-1]


def int_to_bytes(v, length, byteorder, signed):
    return norm_bytes(int_to_items(v, length, byteorder == 'little', signed, OverflowError))


def st_pack(fmt, *vals):
    if not any(is_sym(x) or isinstance(x, (SBytes, OF)) for x in vals):
        return _struct.pack(fmt, *[untag(v) for v in vals])
    order, codes = parse_fmt(fmt)
    real = [c for c in codes if c[0] != 'x']
    if len(real) != len(vals):
        raise _struct.error("pack expected %d items for packing (got %d)" % (len(real), len(vals)))
    out = []
    it = iter(vals)
    for c, s in codes:
        if c == 'x':
            out.append(0)
            continue
        v = next(it)
        if c in 'sc':
            l = list(v)
            if c == 'c' and len(l) != 1:
                raise _struct.error("char format requires a bytes object of length 1")
            l = (l + [0] * s)[:s]
            out += l
        elif c == '?':
            out.append(b2i(core.truth(v)))
        elif c in 'fde':
            if type(v) is OF and v.code == c:
                le = v.items
            elif isinstance(v, OF) or type(v) is not SR and is_sym(v):
                x = v.concrete() if isinstance(v, OF) else v
                if is_sym(x):
                    le = float_items(x, c)
                else:
                    le = list(_struct.pack('<' + c, x))
            elif is_sym(v):
                raise Unsupported("pack real")
            else:
                le = list(_struct.pack('<' + c, v))
            out += le if order == '<' else le[::-1]
        else:
            if type(v) in (SF, SR) or isinstance(v, (float, np.floating)):
                raise _struct.error("required argument is not an integer")
            out += int_to_items(v, s, order == '<', c.islower(), _struct.error)
    return norm_bytes(out)


def float_items(x, c):
    n = SIZES[c]
    try:
        return [table_apply(lambda v, i=i: _struct.pack('<' + c, float(v))[i], x) for i in range(n)]
    except Unsupported:
        return list(_struct.pack('<' + c, float(realise(x))))


def array_tobytes(arr):
    dt = arr.dtype
    if not arr.has_sym():
        return arr.native().tobytes()
    n = dt.itemsize
    out = []
    for x in arr.a.reshape(-1):
        if dt.kind == 'b':
            out.append(b2i(untag(x)) if is_sym(x) else int(x))
        elif dt.kind in 'iu':
            out += int_to_items(x if is_sym(x) else int(x), n, True, dt.kind == 'i', OverflowError)
        elif dt.kind == 'f' and type(x) is not SR:
            out += float_items(x, 'd' if n == 8 else 'f') if is_sym(x) else list(_struct.pack('<d' if n == 8 else '<f', x))
        else:
            raise Unsupported("tobytes")
    return norm_bytes(out)


class SStruct:
    pass


# -- containers with symbolic keys ------------------------------------------------------
def num_key(k):
    return isinstance(k, (int, float, bool, np.generic)) and not isinstance(k, str)


def sx_in(x, c):
    """x in c, kept symbolic where possible"""
    if type(c) in (SA, GA):
        return any_eq(c, x)
    if isinstance(c, SBytes) or isinstance(c, SArr):
        if is_sym(x) or isinstance(x, int):
            return sx_in(x, list(c.items))
        return x in c.concrete()
    if type(c) is dict and (E.symdicts or type(x) in (SBytes, tuple)) and symdict(c, x) or \
            type(x) in (SBytes, tuple) and type(c) in (set, frozenset) and symkey(x):
        es = []
        for key in list(c):
            r = True if key is x else key_eq(key, x)
            if is_sym(r):
                es.append(as_bool_expr(r))
            elif r:
                return True
        return mk_bool(z3.simplify(z3.Or(es))) if es else False
    if is_sym(x):
        if type(c) is range:
            if type(x) in (SI, SB) and c.step == 1:
                xi = b2i(x)
                return mk_bool(z3.simplify(z3.And(as_bool_expr(cmpop('ge', xi, c.start)), as_bool_expr(cmpop('lt', xi, c.stop)))))
            return sx_in(x, list(c))
        if isinstance(c, (dict, set, frozenset, list, tuple)) or type(c) in (type({}.keys()), type({}.values())):
            es = []
            ks = list(c)
            memo = None
            if type(x) is SI and x.lin is not None and all(type(k) is int for k in ks):
                memo = (x.lin, x.lo, x.hi, tuple(ks))
                h = IN_MEMO.get(memo)
                if h is not None:
                    return mk_bool(h)
            for k in ks:
                if is_sym(k) or num_key(k):
                    r = cmpop('eq', x, k)
                    if is_sym(r):
                        es.append(as_bool_expr(r))
                    elif r:
                        return True
            if memo is not None and es:
                IN_MEMO[memo] = z3.simplify(z3.Or(es))
                return mk_bool(IN_MEMO[memo])
            return mk_bool(z3.simplify(z3.Or(es))) if es else False
    if type(c) in (list, tuple) and any(is_sym(k) for k in c):
        es = []
        for k in c:
            r = (k == x)
            if is_sym(r):
                es.append(as_bool_expr(r))
            elif r is not NotImplemented and not isinstance(r, np.ndarray) and r:
                return True
        return mk_bool(z3.simplify(z3.Or(es))) if es else False
    if isinstance(x, SBytes) and isinstance(c, (str, bytes)):
        return x.concrete() in c
    return x in c


def symkey(k):
    """a key whose values are too many to enumerate"""
    t = type(k)
    if t is tuple:
        return any(symkey(x) for x in k)
    if isinstance(k, _Seq):
        return k.has_sym() and len(k.items) > 0
    return t is SI and k.hi - k.lo > 4096


def key_eq(a, b):
    if type(a) is tuple or type(b) is tuple:
        if type(a) is not tuple or type(b) is not tuple or len(a) != len(b):
            return False
        es = []
        for x, y in zip(a, b):
            r = key_eq(x, y)
            if is_sym(r):
                es.append(as_bool_expr(r))
            elif not r:
                return False
        return mk_bool(z3.simplify(z3.And(es))) if es else True
    if isinstance(a, _Seq) or isinstance(b, _Seq):
        return (a == b) if isinstance(a, _Seq) else (b == a)
    if is_sym(a) or is_sym(b):
        r = cmpop('eq', a, b)
        return False if r is NotImplemented else r
    return type(a) is type(b) and a == b or (not isinstance(a, np.ndarray) and a == b)


def symdict(d, k):
    return type(d) is dict and (id(d) in E.symdicts or symkey(k))


def symdict_find(d, k):
    """(key, value) stored under k, forking over the keys, or None"""
    for key, v in list(d.items()):
        if key is k or bool(key_eq(key, k)):
            return key, v
    return None


def sx_setitem(v, o, k):
    if type(o) is dict and o is not None and symdict(o, k):
        h = symdict_find(o, k)
        E.symdicts[id(o)] = o
        E.idhash = True
        try:
            if h is None or not (symkey(h[0]) or is_sym(h[0])):
                E.idhash = symkey(k if h is None else h[0])
            o[k if h is None else h[0]] = v
        finally:
            E.idhash = False
        return
    o[k] = v


def structural(x):
    """identity of a value as an expression"""
    t = type(x)
    if t is tuple:
        return (t,) + tuple(structural(y) for y in x)
    if isinstance(x, _Seq):
        return (t,) + tuple(structural(y) for y in x.items)
    if is_sym(x):
        e = getattr(x, 'e', None)
        if e is None:
            return (t, id(x))
        E.keep.append(x)
        return (t, e.get_id())
    return (t, x)


def m_lru_cache(maxsize=128, typed=False):
    """memoisation: a hit is a call with the very same expressions"""
    def deco(fn):
        store = {}

        def wrapper(*a, **k):
            key = (structural(a), tuple(sorted((n, structural(v)) for n, v in k.items())))
            hash(key)
            h = store.get(key)
            if h is None or h[0] is not E.keep:
                store[key] = h = (E.keep, sx_call(fn, *a, **k))
            return h[1]
        wrapper.__wrapped__ = fn
        wrapper.__name__ = getattr(fn, '__name__', 'f')
        wrapper.cache_clear = store.clear
        wrapper.cache_info = lambda: None
        return wrapper
    if callable(maxsize):
        fn, maxsize = maxsize, 128
        return deco(fn)
    return deco


def dict_lookup(d, k):
    """(found, value) forking over the keys"""
    for key in list(d):
        if is_sym(key) or num_key(key):
            if bool(cmpop('eq', k, key)):
                return True, d[key]
    return False, None


MISSING = object()
IN_MEMO = {}
FIND_MEMO = {}


def dict_find(d, k):
    """value for symbolic key k, merged with ite when all values are small ints, else forked; MISSING if absent"""
    if symdict(d, k) and (id(d) in E.symdicts or not type(k) is SI):
        h = symdict_find(d, k)
        return MISSING if h is None else h[1]
    keys = [key for key in d if is_sym(key) or num_key(key)]
    if not bool(sx_in(k, d)):
        return MISSING
    vals = [d[key] for key in keys]
    feas = [(key, v) for key, v in zip(keys, vals)
            if not (type(k) is SI and isinstance(key, int) and not k.lo <= key <= k.hi)]
    if feas and all(core.is_num(v) for _, v in feas):
        memo = None
        if type(k) is SI and k.lin is not None and all(type(a) is int and type(b) is int for a, b in feas):
            memo = (k.lin, tuple(feas))
            if memo in FIND_MEMO:
                return FIND_MEMO[memo]
        r = feas[-1][1]
        for key, v in reversed(feas[:-1]):
            r = ite(cmpop('eq', k, key), v, r)
        if memo is not None:
            FIND_MEMO[memo] = r
        return r
    if type(k) is SI:
        kv = realise(k)
        return d[kv]
    ok, v = dict_lookup(d, k)
    return v if ok else MISSING


def sx_getitem(o, k):
    t = type(o)
    if t is dict or (isinstance(o, dict) and not is_sym(o)):
        if is_sym(k) or t is dict and (E.symdicts or type(k) in (SBytes, tuple)) and symdict(o, k):
            r = dict_find(o, k)
            if r is MISSING:
                if t is not dict:
                    return o[realise(k)]
                raise KeyError(k)
            return r
        return o[k]
    if t in (list, tuple):
        if isinstance(k, slice):
            if any(is_sym(v) for v in (k.start, k.stop, k.step)):
                return o[clamp_slice(k, len(o))]
            return o[k]
        if type(k) is SA:
            k = k.a[()] if k.a.ndim == 0 else k
        if is_sym(k):
            k = b2i(untag(k))
            if type(k) is not SI:
                raise TypeError("list indices must be integers or slices")
            n = len(o)
            if k.lo < -n or k.hi >= n:
                if not (bool(cmpop('lt', k, n)) and bool(cmpop('ge', k, -n))):
                    raise IndexError("list index out of range")
            idx = [i for i in range(max(k.lo, -n), min(k.hi, n - 1) + 1)]
            if idx and len(idx) <= 64 and all(core.is_num(o[i]) for i in idx):
                r = o[idx[-1]]
                for i in reversed(idx[:-1]):
                    r = ite(cmpop('eq', k, i), o[i], r)
                return r
            return o[realise(k)]
        return o[k]
    if t is str or t is bytes or t is bytearray:
        if isinstance(k, slice) and any(is_sym(v) for v in (k.start, k.stop, k.step)):
            return o[clamp_slice(k, len(o))]
        if is_sym(k):
            if t is str:
                return o[realise(k)]
            return sx_getitem(list(o), k)
        return o[k]
    if t is np.ndarray:
        return wrap(o)[k]
    return o[k]


def sx_is(a, b):
    if b is True or b is False:
        if type(a) is SB and a.np is None:
            return E.decide(a.e) is b
    if a is True or a is False:
        if type(b) is SB and b.np is None:
            return E.decide(b.e) is a
    return a is b


def sx_mod(a, b):
    """a % b: string formatting with symbolic arguments"""
    if isinstance(a, str) and type(a) is str:
        args = b if isinstance(b, tuple) else (b,)
        if any(is_sym(x) or isinstance(x, (_Seq, OF)) for x in args):
            import re
            parts = re.split(r'(%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])', a)
            it = iter(args)
            out = []
            for p in parts:
                if p.startswith('%') and len(p) > 1:
                    if p == '%%':
                        out.append('%')
                        continue
                    v = next(it)
                    out.append(str(v) if is_sym(v) or isinstance(v, _Seq) else ('?' if isinstance(v, OF) else p % (v,)))
                else:
                    out.append(p)
            return ''.join(out)
        return a % b
    return a % b


# -- builtins ---------------------------------------------------------------------------
def parse_token_int(s, base):
    digits = []
    neg = False
    st = s.strip()
    for i, c in enumerate(st):
        if c in E.tokens:
            v = E.tokens[c]
            if type(v) is SB:
                raise Unsupported("bool token")
            v = untag(v)
            if type(v) is not SI or v.lo < 0 or v.hi > 9:
                if len(st) == 1 and base == 10 and type(v) is SI:
                    return v
                w = realise(v)
                return parse_token_int(st[:i] + str(w) + st[i + 1:], base)
            if v.hi >= base:
                if not bool(cmpop('lt', v, base)):
                    raise ValueError("invalid literal for int() with base %d" % base)
            digits.append(v)
        elif c == '-' and i == 0:
            neg = True
        elif c in '+_':
            continue
        else:
            digits.append(int(c, base))
    r = 0
    for d in digits:
        r = r * base + d
    return -r if neg else r


def has_token(s):
    return any(c in E.tokens for c in s) if E.tokens else False


def m_int(x=0, base=None):
    if isinstance(x, str) and not is_sym(x):
        if type(x) is str and has_token(x):
            return parse_token_int(x, base if base is not None else 10)
        return int(str(x), base) if base is not None else int(str(x))
    if base is not None:
        return int(x, realise(base))
    t = type(x)
    if t is SB:
        return untag(b2i(SB(x.e)))
    if t is SI:
        return untag(x)
    if t is SF:
        return table_apply(lambda v: int(v), untag(x))
    if t is SR:
        return core.real_round('trunc', x)
    if t is SA:
        if x.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return m_int(x.a.reshape(-1)[0])
    if isinstance(x, OF):
        return int(x.concrete())
    if isinstance(x, SBytes):
        return int(x.concrete())
    return int(x)


def m_float(x=0.0):
    t = type(x)
    if t is SB:
        x = b2i(x)
        t = SI
    if t is SI:
        return untag(cast_elem(x, NPF))
    if t in (SF, SR):
        return untag(x)
    if t is SA:
        if x.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return m_float(x.a.reshape(-1)[0])
    if type(x) is str and has_token(x):
        if len(x) == 1:
            return m_float(E.tokens[x])
        raise Unsupported("float of a token string")
    if isinstance(x, OF):
        return x
    return float(x)


def m_bool(x=False):
    if is_sym(x):
        return core.truth(SB(x.e) if type(x) is SB else x)
    if type(x) is SA and x.a.size == 1:
        return m_bool(x.a.reshape(-1)[0])
    return bool(x)


def m_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if is_sym(x):
            return str(x)
        if isinstance(x, SBytes):
            return repr(x)
    return str(*a, **k)


def m_bytes(x=MISSING, *a, _mut=False, **k):
    if x is MISSING:
        return SBytes([], True) if _mut else b''
    if isinstance(x, (SBytes, SArr)):
        return norm_bytes(list(x.items), _mut)
    if isinstance(x, SymBits):
        return norm_bytes(list(x.tobytes()), _mut)
    if type(x) is SA:
        return norm_bytes(list(array_tobytes(x)), _mut)
    if is_sym(x):
        x = realise(x)
    if isinstance(x, (int, np.integer)) and not isinstance(x, (str, bytes)):
        return norm_bytes([0] * int(x), _mut)
    if isinstance(x, (str, bytes, bytearray, memoryview)):
        return norm_bytes(list(bytes(x, *a, **k)), _mut)
    if hasattr(x, '__iter__'):
        return norm_bytes([byte_of(y) for y in x], _mut)
    return norm_bytes(list(bytes(x, *a, **k)), _mut)


def m_bytearray(*a, **k):
    return m_bytes(*a, _mut=True, **k)


def m_array(typecode, init=MISSING):
    if init is MISSING:
        return SArr([], typecode)
    if isinstance(init, (SBytes, bytes, bytearray)) and typecode in 'Bb':
        return SArr(list(init), typecode)
    if isinstance(init, (bytes, bytearray, str)):
        return SArr(list(_array.array(typecode, init)), typecode)
    r = SArr([], typecode)
    r.extend(init)
    return r


def mergeable(x, y):
    """tuples of numbers of one shape can be merged under a condition instead of forking the path"""
    if type(x) is tuple and type(y) is tuple:
        return len(x) == len(y) and all(mergeable(p, q) for p, q in zip(x, y))
    return (core.is_num(x) and core.is_num(y)) or x is y or (type(x) is str and type(y) is str and x == y)


def merge(c, x, y):
    if type(x) is tuple:
        return tuple(merge(c, p, q) for p, q in zip(x, y))
    return x if x is y or type(x) is str else ite(c, x, y)


def before(op, x, y):
    """x op y (op: lt or gt) for numbers and, lexicographically, tuples of numbers"""
    if type(x) is tuple:
        if not x:
            return False
        first = before(op, x[0], y[0])
        rest = before(op, x[1:], y[1:])
        same = cmpop('eq', x[0], y[0]) if (is_sym(x[0]) or is_sym(y[0])) else x[0] == y[0]
        if not is_sym(first) and not is_sym(same):
            return first or (same and rest)
        return core.mk_bool(z3.simplify(z3.Or(core.as_bool_expr(first), z3.And(core.as_bool_expr(same), core.as_bool_expr(rest)))))
    return cmpop(op, x, y) if (is_sym(x) or is_sym(y)) else core.PYOP[op](x, y)


def numeric(x):
    return core.is_num(x) or (type(x) is tuple and all(numeric(y) for y in x))


def _minmax(op, fn):
    def f(*args, key=None, default=MISSING):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not xs and default is not MISSING:
            return default
        if not xs:
            raise ValueError("%s() arg is an empty sequence" % fn.__name__)
        ks = xs if key is None else [sx_call(key, x) for x in xs]
        if key is None and not deep_sym(xs):
            return fn(xs)
        if not all(numeric(k) and mergeable(k, ks[0]) for k in ks):
            if key is None:
                return fn(xs)
            best, bk = xs[0], ks[0]
            for x, k in zip(xs[1:], ks[1:]):
                if bool((k < bk) if op == 'lt' else (k > bk)):
                    best, bk = x, k
            return best
        ok = all(mergeable(x, xs[0]) for x in xs)
        best, bk = xs[0], ks[0]
        for x, k in zip(xs[1:], ks[1:]):
            c = before(op, k, bk)
            if ok and is_sym(c):
                best, bk = merge(c, x, best), merge(c, k, bk)
            elif bool(c):
                best, bk = x, k
        return best
    return f


def deep_sym(x):
    return is_sym(x) or (type(x) in (tuple, list) and any(deep_sym(y) for y in x))


def m_sum(it, start=0):
    if type(it) is GA:
        it = it.resolve()
    xs = list(it)
    r = start
    if len(xs) > 8 and all(core.is_num(x) for x in xs) and any(type(x) in (SI, SB) for x in xs) \
            and all(type(x) in (SI, SB) or not is_sym(x) and isinstance(x, (int, np.integer, np.bool_)) for x in xs):
        r = sum_syms([b2i(untag(x)) if is_sym(x) else int(x) for x in xs]) + r
        npd = next((x.np if is_sym(x) else x.dtype for x in xs if (is_sym(x) and x.np is not None) or isinstance(
            x, np.generic) and not is_sym(x)), None)
        if npd is not None and npd.kind in 'iu':
            return wrap_int(r, np.dtype(np.int64) if npd.kind == 'i' else np.dtype(np.int64))
        return r
    for x in xs:
        r = r + x
    return r


def m_abs(x):
    if isinstance(x, OF):
        return abs(x.concrete())
    return abs(x)


def m_round(x, n=None):
    t = type(x)
    if t is SI or t is SB:
        return b2i(untag(x)) if n is None else x
    if t is SF:
        if x.np is not None:
            if n is None:
                return table_apply(lambda v: int(round(v)), untag(x))
            return tag(table_apply(lambda v: float(np.round(v, n)), untag(x)), NPF)
        return table_apply(lambda v: round(v, n) if n is not None else round(v), x)
    if t is SR:
        return core.real_round('rint', x, n)
    return round(x) if n is None else round(x, n)


def m_ord(x):
    if isinstance(x, SBytes):
        if len(x.items) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(x.items))
        return x.items[0]
    if type(x) is str and has_token(x):
        raise Unsupported("ord of token")
    return ord(x)


def m_len(x):
    if type(x) is GA:
        return x.size
    return len(x)


def m_type(*a):
    if len(a) == 1:
        return a[0].__class__ if type(a[0]) in PROXIES else type(a[0])
    return type(*a)


def m_any(it):
    if type(it) is GA:
        it = it.resolve()
    es = []
    for x in it:
        if is_sym(x):
            es.append(as_bool_expr(x))
        elif x:
            return True
    return mk_bool(z3.simplify(z3.Or(es))) if es else False


def m_all(it):
    if type(it) is GA:
        it = it.resolve()
    es = []
    for x in it:
        if is_sym(x):
            es.append(as_bool_expr(x))
        elif not x:
            return False
    return mk_bool(z3.simplify(z3.And(es))) if es else True


def m_print(*a, **k):
    return None


def m_divmod(a, b):
    return a // b, a % b


def m_pow(a, b, m=None):
    return a ** b if m is None else pow(realise(a), realise(b), m)


class SBinStr:
    """binary digits of a symbolic int; leading zeros are only significant when fixed width"""
    __slots__ = ('bits', 'fixed', 'pre')

    def __init__(self, bits, fixed, pre=''):
        self.bits, self.fixed, self.pre = bits, fixed, pre

    @property
    def __class__(self):
        return str

    def count(self, x):
        if x == '1':
            return sum_syms([b2i(b) for b in self.bits])
        return str(self).count(x)

    def __getitem__(self, k):
        if k == slice(2, None) and self.pre:
            return SBinStr(self.bits, self.fixed)
        if self.fixed and not self.pre:
            return str(self)[k]
        return self.concrete()[k]

    def zfill(self, n):
        if not self.pre and len(self.bits) <= n:
            return str(SBinStr([0] * (n - len(self.bits)) + self.bits, True))
        return self.concrete().zfill(n)

    def rjust(self, n, ch=' '):
        return self.zfill(n) if ch == '0' else self.concrete().rjust(n, ch)

    def concrete(self):
        v = 0
        for b in self.bits:
            v = v * 2 + (int(realise(b)) if is_sym(b) else int(b))
        return self.pre + (format(v, '0%db' % len(self.bits)) if self.fixed else format(v, 'b'))

    def __str__(self):
        if self.fixed:
            return self.pre + ''.join(E.token(b) if is_sym(b) else str(int(b)) for b in self.bits)
        return self.concrete()

    __repr__ = __str__

    def __iter__(self):
        return iter(str(self))

    def __len__(self):
        return len(str(self))

    def __eq__(self, o):
        return self.concrete() == o

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.concrete(), n)


def m_bin(x):
    if type(x) is SA and x.a.ndim == 0:
        x = x.item()
    if type(x) is SI and x.lo >= 0:
        return SBinStr([core.self_bit(x, i) for i in range(x.hi.bit_length() - 1, -1, -1)], False, '0b')
    return bin(realise(x))


def m_format(x, spec=''):
    if is_sym(x) and type(x) in (SI,):
        if spec.endswith('b') and x.lo >= 0:
            import re
            m = re.fullmatch(r'0?(\d*)b', spec)
            if m and m.group(1) and x.hi < 1 << int(m.group(1)):
                w = int(m.group(1))
                out = ''
                for i in range(w - 1, -1, -1):
                    b = core.self_bit(x, i)
                    out += E.token(b) if is_sym(b) else str(b)
                return out
        if spec == 'b' and x.lo >= 0:
            return SBinStr([core.self_bit(x, i) for i in range(x.hi.bit_length() - 1, -1, -1)], False)
        if spec in ('', 'd'):
            return str(x)
        if spec.lower().endswith('x'):
            return format(realise(x), spec)
        return E.token(x)
    return format(x, spec)


def m_isinstance(x, c):
    return isinstance(x, c)


def m_range(*a):
    return range(*[int(realise(x)) if is_sym(x) else (int(x.a[()]) if type(x) is SA and x.a.ndim == 0 else x) for x in a])


def m_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, SA) and type(b) is SA:
        b = array_tobytes(b)
    its = [byte_of(x) for x in b]
    if not its:
        return 0
    return int_from_items(its, byteorder == 'little', signed)


def m_fromhex(s):
    if isinstance(s, SHex):
        return norm_bytes(s.items)
    return bytes.fromhex(s)


# -- json with symbolic leaves -------------------------------------------------------------
class JsonStore:
    """symbolic leaves are replaced by marker strings on dump and restored on load"""


def json_enc(o, default):
    import enum
    if is_sym(o):
        if o.np is not None and o.np.kind in 'iub':
            if default is None:
                raise TypeError("Object of type %s is not JSON serializable" % o.np)
            return json_enc(default(o), default)
        k = '\u0001sym%d' % len(E.tokens)
        E.tokens['\u0001J' + str(len(E.tokens))] = o
        key = '\u0001J' + str(len(E.tokens) - 1)
        return key
    if isinstance(o, OF):
        n = len(E.tokens)
        E.tokens['\u0001J' + str(n)] = o
        return '\u0001J' + str(n)
    if isinstance(o, SHex):
        n = len(E.tokens)
        E.tokens['\u0001J' + str(n)] = o
        return '\u0001J' + str(n)
    if o is None or isinstance(o, (str, bool, int, float)) and not isinstance(o, np.generic):
        return o
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, dict):
        return {k if isinstance(k, str) else (str(k) if not isinstance(k, bool) else str(k).lower()): json_enc(v, default)
                for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [json_enc(v, default) for v in o]
    if default is None:
        raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
    return json_enc(default(o), default)


def json_dec(o):
    if isinstance(o, str):
        return untag(E.tokens[o]) if o.startswith('\u0001J') and o in E.tokens else o
    if isinstance(o, list):
        return [json_dec(v) for v in o]
    if isinstance(o, dict):
        return {k: json_dec(v) for k, v in o.items()}
    return o


def m_json_dump(obj, fp, *a, default=None, **k):
    return _json.dump(json_enc(obj, default), fp, **k)


def m_json_dumps(obj, *a, default=None, **k):
    return _json.dumps(json_enc(obj, default), **k)


def m_json_load(fp, **k):
    return json_dec(_json.load(fp, **k))


def m_json_loads(s, **k):
    return json_dec(_json.loads(s, **k))


# -- numpy creation ---------------------------------------------------------------------------
def np_array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    if isinstance(obj, (map, filter, zip)) or type(obj).__name__ == 'generator':
        return wrap(np.array(obj, dtype=dtype))
    return make_array(obj, dtype=dtype, copy=copy is not False, ndmin=ndmin)


def np_asarray(obj, dtype=None, **k):
    if type(obj) is SA and (dtype is None or np.dtype(dtype) == obj.dtype):
        return obj
    return make_array(obj, dtype=dtype)


def conc(x):
    if is_sym(x):
        return realise(x)
    if type(x) in (SA, GA):
        return asSA(x).concrete() if asSA(x).has_sym() else asSA(x).native()
    if type(x) in (tuple, list):
        return type(x)(conc(y) for y in x)
    return x


def creation(fn):
    def f(*a, **k):
        return wrap(fn(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()}))
    return f


def np_empty(shape, dtype=float, **k):
    return wrap(np.zeros(conc(shape), dtype=dtype))


def np_full(shape, fill_value, dtype=None, **k):
    shape = conc(shape)
    if dtype is None:
        dt = fill_value.dtype if type(fill_value) is SA else (npmodel.scalar_dtype(fill_value) if is_sym(fill_value)
                                                             else np.asarray(fill_value).dtype)
    else:
        dt = np.dtype(dtype)
    r = wrap(np.zeros(shape, dtype=dt))
    r[...] = fill_value
    return r


def np_fromiter(it, dtype, count=-1):
    return make_array(list(it), dtype=dtype)


def np_apply_along_axis(func, axis, arr, *a, **k):
    A = asSA(arr)
    m = np.moveaxis(A.a, axis, -1)
    outs = []
    for ix in np.ndindex(*m.shape[:-1]):
        outs.append(sx_call(func, SA(m[ix], A.dtype), *a, **k))
    if outs and type(outs[0]) is SA:
        st = np.stack([o.a for o in outs]).reshape(m.shape[:-1] + outs[0].a.shape)
        n = outs[0].a.ndim
        if n == 1:
            st = np.moveaxis(st, -1, axis)
        return SA(st, outs[0].dtype)
    r = make_array(outs)
    return SA(r.a.reshape(m.shape[:-1]), r.dtype)


def np_vectorize(f, **k):
    def g(*arrs):
        A = [asSA(x) for x in arrs]
        bs = np.broadcast_arrays(*[x.a for x in A])
        out = [sx_call(f, *[A[j].el(b.reshape(-1)[i]) for j, b in enumerate(bs)]) for i in range(bs[0].size)]
        r = make_array(out)
        return SA(r.a.reshape(bs[0].shape), r.dtype)
    return g


def np_scalar(dt):
    dt = np.dtype(dt)

    def f(x=0, *a):
        if type(x) in (SA, GA) or isinstance(x, (list, tuple)) and not is_sym(x):
            return make_array(x, dtype=dt)
        if is_sym(x):
            r = cast_elem(x, dt)
            return tag(r, dt) if is_sym(r) else r
        if isinstance(x, OF):
            x = x.concrete()
        return dt.type(x, *a)
    return f


def np_setop(kind):
    nat = {'intersect': np.intersect1d, 'setdiff': np.setdiff1d, 'union': np.union1d}[kind]

    def f(a, b, assume_unique=False, **k):
        A, B = asSA(a) if not isinstance(a, (list, tuple)) or a else wrap(np.array(a, dtype=float)), \
            asSA(b) if not isinstance(b, (list, tuple)) or b else wrap(np.array(b, dtype=float))
        if type(a) is GA or type(b) is GA or A.has_sym() or B.has_sym():
            if kind == 'union' or A.dtype.kind not in 'iub' or any(is_sym(x) for x in A.a.reshape(-1)):
                return wrap(nat(A.concrete(), B.concrete(), **k))
            # A concrete: order/unique A, guard by membership in B
            els = sorted(set(int(x) for x in A.a.reshape(-1)))
            gs, vs = [], []
            for v in els:
                c = any_eq(B, v)
                e = as_bool_expr(c)
                if kind == 'setdiff':
                    e = z3.simplify(z3.Not(e))
                if not z3.is_false(e):
                    gs.append(e)
                    vs.append(A.dtype.type(v))
            from .arrays import mask_key
            return GA(vs, gs, A.dtype, ('set',) + mask_key(gs) + tuple(int(v) for v in vs))
        return wrap(nat(A.native(), B.native(), **k))
    return f


def np_linalg_inv(a):
    A = asSA(a)
    if not A.has_sym():
        return wrap(np.linalg.inv(A.native()))
    try:
        return npmodel.generic_table(np.linalg.inv, (A,), {})
    except Unsupported:
        pass
    if A.shape == (2, 2):
        p, q, r, s = [A[i, j] for i in (0, 1) for j in (0, 1)]
        det = p * s - q * r
        if not bool(det != 0):
            raise np.linalg.LinAlgError("Singular matrix")
        return make_array([[s / det, -q / det], [-r / det, p / det]])
    raise Unsupported("inv")


def scipy_entropy(pk, qk=None, base=None, axis=0, **kw):
    """scipy.stats.entropy: row-wise tabulation of the real function"""
    import scipy.stats as ss
    P = asSA(pk)
    Q = asSA(qk) if qk is not None else None
    if not P.has_sym() and (Q is None or not Q.has_sym()):
        with np.errstate(all='ignore'):
            return wrap(ss.entropy(P.native(), None if Q is None else Q.native(), base=base, axis=axis, **kw))
    if P.a.ndim == 1:
        return npmodel.generic(lambda p, q=None: ss.entropy(p, q, base=base), (P,) if Q is None else (P, Q), {})
    m = np.moveaxis(P.a, axis, -1)
    mq = np.moveaxis(Q.a, axis, -1) if Q is not None else None
    out = np.empty(m.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        p = SA(m[ix], P.dtype)
        if mq is None:
            out[ix] = npmodel.generic(lambda p: np.float64(ss.entropy(p, base=base)), (p,), {})
        else:
            out[ix] = npmodel.generic(lambda p, q: np.float64(ss.entropy(p, q, base=base)), (p, SA(mq[ix], Q.dtype)), {})
    return SA(out, NPF)


def norm_fit(data, *a, **k):
    A = make_array(list(data)) if not type(data) is SA else data
    if not A.has_sym() and A.dtype != OBJ:
        from scipy.stats import norm
        return wrap(norm.fit(A.native()))
    if A.dtype == OBJ:
        raise Unsupported("fit of objects")
    return npmodel.np_mean(A), npmodel.np_std(A)


def logsumexp(a, axis=None, **k):
    from scipy.special import logsumexp as l
    return npmodel.generic(l, (a,), dict(axis=axis, **k))


# -- call dispatch ---------------------------------------------------------------------------------
PROXIES = {SB, SI, SF, SR, SA, GA, SBytes, SArr, SymBits, OF, SHex, SBinStr}


def build_calls():
    C = {
        int: m_int, float: m_float, bool: m_bool, str: m_str, bytes: m_bytes, bytearray: m_bytearray, max: _minmax('gt', max),
        min: _minmax('lt', min), sum: m_sum, abs: m_abs, round: m_round, ord: m_ord, len: m_len, type: m_type, any: m_any, zip: m_zip,
        all: m_all, print: m_print, divmod: m_divmod, pow: m_pow, bin: m_bin, format: m_format, range: m_range,
        _array.array: m_array, _struct.pack: st_pack, _struct.unpack: st_unpack, _struct.unpack_from: st_unpack_from, int.from_bytes: m_from_bytes,
        bytes.fromhex: m_fromhex, _json.dump: m_json_dump, _json.dumps: m_json_dumps, _json.load: m_json_load,
        _json.loads: m_json_loads,
        np.array: np_array, np.asarray: np_asarray, np.ascontiguousarray: np_asarray, np.asanyarray: np_asarray,
        np.zeros: creation(np.zeros), np.ones: creation(np.ones), np.empty: np_empty, np.full: np_full,
        np.arange: creation(np.arange), np.eye: creation(np.eye), np.identity: creation(np.identity),
        np.linspace: creation(np.linspace), np.frombuffer: npmodel.np_frombuffer, np.fromiter: np_fromiter,
        np.apply_along_axis: np_apply_along_axis, np.vectorize: np_vectorize,
        np.intersect1d: np_setop('intersect'), np.setdiff1d: np_setop('setdiff'), np.union1d: np_setop('union'),
        np.linalg.inv: np_linalg_inv,
    }
    for dt in (np.float64, np.float32, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.uint64,
               np.bool_):
        C[dt] = np_scalar(dt)
    for b in (bitstring.Bits, bitstring.BitArray):
        C[b] = (lambda b: lambda *a, **k: make_bits(b, *a, **k))(b)
    for f, m in npmodel.FUNCS.items():
        C[f] = m
    # math: tabulate
    for n in ('sqrt', 'log', 'log2', 'exp', 'floor', 'ceil', 'log10', 'erf', 'fabs', 'isnan', 'isinf', 'isfinite', 'pow',
              'tanh', 'log1p', 'gcd', 'comb', 'trunc', 'isclose', 'erfc'):
        C[getattr(math, n)] = (lambda f: lambda *a, **k: math_call(f, a, k))(getattr(math, n))
    C[math.prod] = lambda xs, start=1: _prod(xs, start)
    C[math.fsum] = lambda xs: m_sum(xs)
    try:
        import scipy.stats as ss
        C[ss.entropy] = scipy_entropy
    except ImportError:
        pass
    return C


class GZip:
    """zip of arrays whose elements are present under the same guards"""

    def __init__(self, items, guards):
        self.items, self.guards = items, guards

    def __iter__(self):
        for x, g in zip(self.items, self.guards):
            if core.E.decide(g):
                yield x


def m_zip(*a, **k):
    if a and all(type(x) is GA for x in a) and len({x.key for x in a}) == 1 and not k:
        return GZip(list(zip(*[x.vals for x in a])), a[0].guards)
    return zip(*a, **k)


def guarded(it):
    return type(it) is GA or type(it) is GZip


def gitems(it):
    return list(zip(it.guards, it.vals if type(it) is GA else it.items))


def gval(g, v, o, i):
    """what a guarded store puts at o[i]"""
    if not isinstance(o, np.ndarray):
        raise TypeError
    old = o[i]
    ok = lambda x: is_sym(x) or type(x) in (int, float, bool) or isinstance(x, np.generic)
    if not ok(v) or not ok(old):
        raise TypeError
    return core.ite(core.mk_bool(g), cast_elem(v, o.dtype), old)


def gdec(g):
    return core.E.decide(g)


def _prod(xs, start):
    r = start
    for x in xs:
        r = r * x
    return r


def math_call(f, a, k):
    a = [x._scalar() if type(x) is SA else (x.concrete() if isinstance(x, OF) else x) for x in a]
    if not any(is_sym(x) for x in a):
        return f(*a, **k)
    a = [untag(x) for x in a]
    if any(type(x) is SR for x in a):
        if f is math.sqrt:
            r = core.sqrt_sym(a[0], None)
            if not is_sym(r) and r != r:
                raise ValueError("math domain error")
            return r
        if f is math.fabs:
            return abs(a[0])
        if f in (math.isnan, math.isinf):
            return False
        if f is math.isfinite:
            return True
        if f is math.isclose:
            rel, ab = k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0)
            d, x, y = abs(a[0] - a[1]), abs(a[0]), abs(a[1])
            m = core.ite(x >= y, x, y)
            return core.mk_bool(z3.simplify(z3.Or(core.as_bool_expr(d <= m * rel), core.as_bool_expr(d <= ab))))
        if f in (math.floor, math.ceil, math.trunc):
            return core.real_round(f.__name__, a[0])
        raise Unsupported("math.%s of a real" % f.__name__)
    try:
        return table_apply(lambda *v: f(*v, **k), *a)
    except (ValueError, ZeroDivisionError, OverflowError):
        return f(*[realise(x) for x in a], **k)
    except Unsupported:
        return f(*[realise(x) if is_sym(x) else x for x in a], **k)


CALLS = None
STUBS = {}
SEEN = set()


def seen_functions():
    import os
    repo = os.environ.get('SX_REPO', '/repo')
    return {'%s:%s' % (os.path.relpath(c.co_filename, repo), c.co_qualname) for c in SEEN
            if c.co_filename.startswith(repo + '/')}


STEPS = [0]
FunctionType = type(lambda: 0)
MethodType = types.MethodType
BuiltinType = type(len)
EXTERNAL = ('numpy', 'scipy', 'sklearn', 'bitstring', 'fastcrc', 'math', 'pandas')


def sx_call(f, /, *a, **k):
    global CALLS
    STEPS[0] += 1
    if STEPS[0] & 1023 == 0:
        check_deadline()
    if CALLS is None:
        CALLS = build_calls()
    tf = type(f)
    if tf is FunctionType:
        if '__sx_lifted__' in f.__globals__:
            SEEN.add(f.__code__)
            return f(*a, **k)
    elif tf is MethodType:
        g = f.__func__
        if type(g) is FunctionType and '__sx_lifted__' in g.__globals__:
            SEEN.add(g.__code__)
            return f(*a, **k)
        if type(f.__self__) in PROXIES:
            return f(*a, **k)
    if STUBS:
        s = find_stub(f)
        if s is not None:
            return s(*a, **k)
    try:
        m = CALLS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if tf is np.ufunc:
        if any(npmodel.is_arr(x) or is_sym(x) or type(x) in (list, tuple) for x in a):
            return npmodel.array_ufunc(f, '__call__', a, k)
        return wrap(f(*a, **k))
    if tf is type or isinstance(f, type):
        i = getattr(f, '__init__', None)
        if type(i) is FunctionType and '__sx_lifted__' in i.__globals__:
            SEEN.add(i.__code__)
    if tf is BuiltinType:
        s = getattr(f, '__self__', None)
        ts = type(s)
        if ts is _struct.Struct:
            if f.__name__ == 'unpack':
                return st_unpack(s.format, *a)
            if f.__name__ == 'unpack_from':
                return st_unpack_from(s.format, *a, **k)
            if f.__name__ == 'pack':
                return st_pack(s.format, *a)
        if ts is np.ufunc:
            return npmodel.array_ufunc(s, f.__name__, a, k)
        if ts is dict and a and (is_sym(a[0]) or symdict(s, a[0])):
            if f.__name__ == 'pop' and symdict(s, a[0]):
                h = symdict_find(s, a[0])
                if h is None:
                    if len(a) > 1:
                        return a[1]
                    raise KeyError(a[0])
                E.idhash = symkey(h[0])
                try:
                    return s.pop(h[0])
                finally:
                    E.idhash = False
            if f.__name__ == 'get':
                r = dict_find(s, a[0])
                return (a[1] if len(a) > 1 else k.get('default')) if r is MISSING else r
            if f.__name__ == 'setdefault':
                r = dict_find(s, a[0])
                if r is not MISSING:
                    return r
                sx_setitem(s, a[0] if symdict(s, a[0]) else realise(a[0]), a[1] if len(a) > 1 else None)
                return a[1] if len(a) > 1 else None
            return f(realise(a[0]), *a[1:], **k)
        if ts is bytes and f.__name__ == 'join':
            out = []
            for i, x in enumerate(a[0]):
                if i:
                    out += list(s)
                out += list(x)
            return norm_bytes(out)
        if ts in (bytes, bytearray) and any(type(x) in PROXIES for x in a):
            return getattr(SBytes(list(s)), f.__name__)(*a, **k)
        if ts is list and f.__name__ == 'index' and a and is_sym(a[0]):
            pass
        if ts is str and f.__name__ == 'format':
            return f(*a, **k)
    mod = getattr(f, '__module__', None) or ''
    slf = getattr(f, '__self__', None)
    if tf is type and f.__module__ and f.__module__.split('.')[0] in EXTERNAL and issubclass(f, BaseException):
        return f(*a, **k)
    if not isinstance(mod, str):
        mod = ''
    root = mod.split('.')[0]
    if root not in EXTERNAL and slf is not None and not isinstance(slf, (str, list, dict)):
        root = (type(slf).__module__ or '').split('.')[0]
    if root in EXTERNAL:
        if type(slf) in PROXIES:
            return f(*a, **k)
        if slf is not None and getattr(f, '__name__', '') == 'fit' and type(slf).__name__ == 'norm_gen':
            return norm_fit(*a, **k)
        if tf is type or getattr(tf, '__module__', '') == 'abc' or isinstance(f, type):
            # constructing an external object
            if any(npmodel.collect(x, []) for x in (a, list(k.values()))):
                return f(*npmodel.subst(a, realise), **npmodel.subst(k, realise))
            return wrap(f(*npmodel.subst(a, None), **npmodel.subst(k, None)))
        if mod.startswith('numpy.testing') or mod.startswith('numpy.random') or root == 'numpy' and slf is not None:
            return wrap(f(*npmodel.subst(a, realise), **npmodel.subst(k, realise)))
        return npmodel.generic(f, a, k)
    return f(*a, **k)


def find_stub(f):
    try:
        s = STUBS.get(f)
        if s is not None:
            return s
    except TypeError:
        pass
    n = getattr(f, '__name__', None)
    slf = getattr(f, '__self__', None)
    if slf is not None and n is not None:
        for cls in type(slf).__mro__:
            s = STUBS.get((cls.__module__.split('.')[0], n))
            if s is not None:
                return s
    return None


def check_deadline():
    import time
    if E.deadline and time.time() > E.deadline:
        raise core.Budget("deadline")
    if E.path_deadline and time.time() > E.path_deadline:
        raise core.Budget("path deadline")
