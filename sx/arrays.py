"""Symbolic numpy arrays: an object ndarray of concrete/symbolic scalars plus a nominal dtype."""
import math
import operator
import numpy as np
import z3
from . import core
from .core import (E, SB, SI, SF, SR, SYM_TYPES, is_sym, Unsupported, tag, untag, ite, mk_bool, as_bool_expr, binop, cmpop,
                   unop, table_apply, NPF, NPB, NPI, b2i, wrap_int, realise, sum_syms, finite, join_selectors, wrap_table)

OBJ = np.dtype(object)


def obj_array(lst, shape=None):
    a = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        a[i] = v
    return a.reshape(shape) if shape is not None else a


def to_obj(arr):
    """native ndarray -> object ndarray whose elements are numpy scalars"""
    if arr.dtype == OBJ:
        return arr
    out = np.empty(arr.shape, dtype=object)
    if arr.ndim == 0:
        out[()] = arr[()]
        return out
    flat = out.reshape(-1)
    src = arr.reshape(-1)
    for i in range(src.size):
        flat[i] = src[i]
    return out


class SA:
    """symbolic ndarray"""
    __slots__ = ('a', 'dtype', 'wr')
    __hash__ = None

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = np.dtype(dtype)

    @property
    def __class__(self):
        return np.ndarray

    # numpy protocols
    def __array_function__(self, func, types, args, kwargs):
        from . import npmodel
        return npmodel.array_function(func, args, kwargs)

    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        from . import npmodel
        return npmodel.array_ufunc(ufunc, method, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        r = self.concrete()
        return r if dtype is None else r.astype(dtype)

    def has_sym(self):
        for x in self.a.reshape(-1):
            if type(x) in SYM_TYPES:
                return True
        return False

    def native(self):
        """native ndarray (all elements concrete)"""
        if self.dtype == OBJ:
            return self.a
        out = np.empty(self.a.shape, dtype=self.dtype)
        if self.a.ndim == 0:
            out[()] = self.a[()]
        else:
            f, s = out.reshape(-1), self.a.reshape(-1)
            for i in range(s.size):
                f[i] = s[i]
        return out

    def concrete(self):
        """realise every element (forks) and return native"""
        a = self.a.copy()
        f = a.reshape(-1)
        for i in range(f.size):
            if is_sym(f[i]):
                f[i] = realise(f[i])
        return SA(a, self.dtype).native()

    # basic attributes
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return SA(self.a.T, self.dtype)

    @property
    def flat(self):
        return iter(self.reshape(-1))

    @property
    def nbytes(self):
        return self.a.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def base(self):
        return None

    @property
    def real(self):
        return self

    @property
    def flags(self):
        return self.a.flags

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self.a)):
            yield self[i]

    def el(self, x):
        """element as a numpy scalar"""
        if self.dtype == OBJ:
            return x
        if is_sym(x):
            return tag(x, self.dtype)
        if isinstance(x, np.generic) and x.dtype == self.dtype:
            return x
        return self.dtype.type(x)

    def __getitem__(self, k):
        k = norm_key(k)
        if type(k) is GA:
            return k.index_into(self)
        if type(k) is SA and k.dtype == NPB and k.has_sym():
            return guarded_take(self, k)
        if isinstance(k, tuple) and any(type(x) is SI for x in k):
            return sym_index(self, k)
        if type(k) is SI:
            return sym_index(self, (k,))
        if type(k) is SA:
            if k.has_sym():
                return fancy_sym(self, k)
            k = k.native()
        elif isinstance(k, tuple):
            k = tuple(concrete_key(x) for x in k)
        if isinstance(k, np.ndarray) and k.size == 0 and k.dtype.kind == 'f':
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        r = self.a[k]
        if isinstance(r, np.ndarray) and not (self.dtype == OBJ and r is not None and not isinstance(r, np.ndarray)):
            return SA(r, self.dtype)
        return self.el(r)

    def __setitem__(self, k, v):
        k = norm_key(k)
        if type(k) is GA:
            k.assign_into(self, v)
            return
        if type(k) is SA and k.dtype == NPB and k.has_sym():
            guarded_put(self, k, v)
            return
        if type(k) is SA:
            k = k.native() if not k.has_sym() else k.concrete()
        elif isinstance(k, tuple):
            if any(type(x) is SI for x in k):
                k = tuple(realise(x) if type(x) is SI else x for x in k)
            k = tuple(concrete_key(x) for x in k)
        elif type(k) is SI:
            n = len(self.a)
            if self.a.ndim == 1 and 0 <= k.lo and k.hi < n and (is_sym(v) or np.isscalar(v)):
                for i in range(k.lo, k.hi + 1):
                    self.a[i] = ite(cmpop('eq', k, i), cast_elem(v, self.dtype), self.a[i])
                return
            k = realise(k)
        if type(v) is GA:
            v = v.resolve()
        if isinstance(v, (SA, np.ndarray)):
            vv = asSA(v)
            src = vv.a if vv.dtype == self.dtype else cast(vv, self.dtype).a
            if src.ndim == 0:
                self.a[k] = src[()]
            else:
                tgt = self.a[k]
                if not isinstance(tgt, np.ndarray):
                    if src.size != 1:
                        raise ValueError("setting an array element with a sequence.")
                    self.a[k] = src.reshape(-1)[0]
                else:
                    if src.shape != tgt.shape:
                        s2 = src
                        while s2.ndim > tgt.ndim and s2.shape[0] == 1:
                            s2 = s2[0]
                        src = np.broadcast_to(s2, tgt.shape)
                    self.a[k] = src
        elif isinstance(v, (list, tuple)) and self.dtype != OBJ:
            self[k] = make_array(v, dtype=None)
        else:
            self.a[k] = cast_elem(v, self.dtype) if self.dtype != OBJ else v

    def __contains__(self, x):
        return bool(any_eq(self, x))

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.a.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _scalar(self):
        if self.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def __index__(self):
        if self.a.ndim != 0 or self.dtype.kind not in 'iu':
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(realise(self._scalar()))

    def __int__(self):
        return int(realise(self._scalar()))

    def __float__(self):
        return float(realise(self._scalar()))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __str__(self):
        return str(self.a)

    __repr__ = __str__

    def __format__(self, s):
        return str(self.a)

    # methods
    def copy(self, order=None):
        return SA(self.a.copy(), self.dtype)

    def astype(self, dt, copy=True, **kw):
        return cast(self, np.dtype(dt))

    def tolist(self):
        def conv(x):
            return [conv(y) for y in x] if isinstance(x, list) else untag(x)
        return conv(self.a.tolist()) if self.a.ndim else untag(self.a[()])

    def item(self, *i):
        if i:
            return untag(self.a.item(*i))
        return untag(self._scalar()) if self.a.size == 1 else (_ for _ in ()).throw(
            ValueError("can only convert an array of size 1 to a Python scalar"))

    def reshape(self, *s, **kw):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return SA(self.a.reshape(s), self.dtype)

    def flatten(self, *a):
        return SA(self.a.flatten(), self.dtype)

    def ravel(self, *a):
        return SA(self.a.ravel(), self.dtype)

    def squeeze(self, axis=None):
        return SA(self.a.squeeze(axis), self.dtype)

    def transpose(self, *ax):
        return SA(self.a.transpose(*ax), self.dtype)

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a):
        from . import models
        return models.array_tobytes(self)

    def view(self, dt=None, *a):
        if dt is None or dt is np.ndarray:
            return SA(self.a.view(), self.dtype)
        dt = np.dtype(dt)
        if {dt, self.dtype} <= {np.dtype(np.uint8), NPB, np.dtype(np.int8)}:
            return cast(self, dt)
        if not self.has_sym():
            return wrap(self.native().view(dt))
        raise Unsupported("view")

    def item_setter(self, *a):
        raise Unsupported("itemset")

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from . import npmodel
        m = npmodel.METHODS.get(name)
        if m is not None:
            return lambda *a, **k: m(self, *a, **k)
        if not hasattr(np.ndarray, name):
            raise AttributeError("'numpy.ndarray' object has no attribute %r" % name)
        v = getattr(self.concrete(), name)
        if callable(v):
            return lambda *a, **k: wrap(v(*a, **k))
        return wrap(v)


def _arr_binop(op):
    def f(self, o):
        from . import npmodel
        return npmodel.elementwise(op, self, o)
    return f


def _arr_rbinop(op):
    def f(self, o):
        from . import npmodel
        return npmodel.elementwise(op, o, self)
    return f


def _arr_ibinop(op):
    def f(self, o):
        from . import npmodel
        r = npmodel.elementwise(op, self, o)
        if r is NotImplemented:
            return r
        if type(r) is GA:
            r = r.resolve()
        if np.dtype(r.dtype).kind == 'f' and self.dtype.kind in 'iub' or r.dtype.kind in 'iu' and self.dtype.kind == 'b':
            raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (r.dtype, self.dtype))
        if r.shape != self.shape:
            raise ValueError("non-broadcastable output operand")
        self.a[...] = cast(r, self.dtype).a
        return self
    return f


for _n, _op in [('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'truediv'), ('floordiv', 'floordiv'),
                ('mod', 'mod'), ('pow', 'pow'), ('and', 'and'), ('or', 'or'), ('xor', 'xor'), ('lshift', 'lshift'),
                ('rshift', 'rshift')]:
    setattr(SA, '__%s__' % _n, _arr_binop(_op))
    setattr(SA, '__r%s__' % _n, _arr_rbinop(_op))
    setattr(SA, '__i%s__' % _n, _arr_ibinop(_op))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(SA, '__%s__' % _n, _arr_binop(_n))


def _matmul(self, o):
    from . import npmodel
    return npmodel.matmul(self, o)


def _rmatmul(self, o):
    from . import npmodel
    return npmodel.matmul(o, self)


def _unary(op):
    def f(self):
        from . import npmodel
        return npmodel.unary(op, self)
    return f


SA.__matmul__ = _matmul
SA.__rmatmul__ = _rmatmul
SA.__neg__ = _unary('neg')
SA.__abs__ = _unary('abs')
SA.__invert__ = _unary('invert')
SA.__pos__ = lambda self: self.copy()
SA.__hash__ = None


# ---------------------------------------------------------------------------
def SA_from_scalar(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return SA(a, x.np)


def wrap(v):
    """wrap native arrays (also inside tuples/lists) for lifted code"""
    if type(v) is np.ndarray:
        return SA(to_obj(v), v.dtype)
    if isinstance(v, np.ndarray) and type(v) is not SA:
        return SA(to_obj(np.asarray(v)), v.dtype)
    if type(v) is tuple:
        return tuple(wrap(x) for x in v)
    if type(v) is list:
        return [wrap(x) for x in v]
    return v


def asSA(v):
    if type(v) is SA:
        return v
    if type(v) is GA:
        return v.resolve()
    if type(v) is np.ndarray:
        return wrap(v)
    return make_array(v)


def norm_key(k):
    if isinstance(k, list) and type(k) is list:
        return make_array(k, dtype=NPI if not k else None)
    if isinstance(k, tuple) and any(type(x) in (list, GA) for x in k):
        return tuple(make_array(x) if type(x) is list else (x.resolve() if type(x) is GA else x) for x in k)
    if type(k) is np.ndarray:
        return k
    if type(k) is SA and k.a.ndim == 0 and k.dtype.kind in 'iu':
        return k.a[()]
    return k


def concrete_key(x):
    if type(x) is SA:
        return x.native() if not x.has_sym() else x.concrete()
    if isinstance(x, slice):
        return slice(*[realise(v) if is_sym(v) else v for v in (x.start, x.stop, x.step)])
    if is_sym(x):
        return realise(x)
    return x


def sym_index(arr, k):
    """index with symbolic ints: ite-chain over the feasible range for one symbolic index"""
    pos = [i for i, x in enumerate(k) if type(x) is SI]
    if len(pos) > 1:
        k = tuple(realise(x) if type(x) is SI and i != pos[-1] else x for i, x in enumerate(k))
        pos = pos[-1:]
    i = pos[0]
    x = k[i]
    # axis of this index
    ax = sum(1 for y in k[:i] if y is not None)
    n = arr.a.shape[ax]
    if x.hi >= n or x.lo < -n:
        inb = z3.simplify(z3.And(as_bool_expr(cmpop('lt', x, n)), as_bool_expr(cmpop('ge', x, -n))))
        if not E.decide(inb):
            raise IndexError("index out of bounds for axis %d with size %d" % (ax, n))
    lo, hi = max(x.lo, -n), min(x.hi, n - 1)
    if hi - lo > 64 and len(k) == 1 and arr.a.ndim == 1 and lo >= 0 and hi - lo <= 4096:
        runs = []
        for v in range(lo, hi + 1):
            y = arr.a[v]
            if is_sym(y):
                runs = None
                break
            if not runs or runs[-1][1] != y:
                runs.append((v, y))
                if len(runs) > 64:
                    runs = None
                    break
        if runs:
            r = arr.el(runs[0][1])
            for v, y in runs[1:]:
                r = ite(cmpop('ge', x, v), arr.el(y), r)
            return r
    if hi - lo > 64:
        return arr[tuple(realise(y) if type(y) is SI else y for y in k)]
    cands = []
    for v in range(lo, hi + 1):
        cands.append((v, arr[k[:i] + (v,) + k[i + 1:]]))
    r = cands[-1][1]
    for v, c in reversed(cands[:-1]):
        g = cmpop('eq', x, v)
        if type(c) is SA:
            r = SA(obj_array([ite(g, p, q) for p, q in zip(c.a.reshape(-1), r.a.reshape(-1))], c.a.shape), c.dtype)
        else:
            r = ite(g, c, r)
    return r


def fancy_sym(arr, k):
    """fancy index by an array with symbolic ints"""
    flat = [arr[x] if not is_sym(x) else sym_index(arr, (core.b2i(untag(x)),)) for x in k.a.reshape(-1)]
    if not flat:
        return SA(np.empty((0,) + arr.a.shape[1:], dtype=object), arr.dtype)
    if type(flat[0]) is SA:
        out = np.empty((len(flat),) + flat[0].a.shape, dtype=object)
        for i, f in enumerate(flat):
            out[i] = f.a
        return SA(out.reshape(k.a.shape + flat[0].a.shape), arr.dtype)
    return SA(obj_array(flat, k.a.shape), arr.dtype)


def any_eq(arr, x):
    """x in arr"""
    if type(arr) is GA:
        arr = arr.resolve()
    r = []
    for y in arr.a.reshape(-1):
        c = (y == x)
        if c is NotImplemented:
            continue
        if is_sym(c):
            r.append(as_bool_expr(c))
        elif c:
            return True
    if not r:
        return False
    return mk_bool(z3.simplify(z3.Or(r)))


def cast_elem(v, dt):
    """convert scalar v to dtype dt (numpy assignment semantics)"""
    dt = np.dtype(dt)
    if dt == OBJ:
        return v
    if type(v) is SA:
        v = v._scalar()
    t = type(v)
    if t not in SYM_TYPES:
        if isinstance(v, np.ndarray):
            v = v.reshape(-1)[0]
        if isinstance(v, str) and any(c in E.tokens for c in v):
            raise Unsupported("token string into array")
        if dt.kind in 'iu' and isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)):
            return wrap_int(v, dt)
        with np.errstate(all='ignore'):
            return np.asarray(v).astype(dt)[()]
    if dt.kind == 'b':
        return mk_bool(z3.simplify(as_bool_expr(v)), dt)
    if dt.kind in 'iu':
        if t is SB:
            return tag(b2i(v), dt)
        if t is SI:
            return wrap_int(v, dt)
        if t is SF:
            with np.errstate(all='ignore'):
                r = table_apply(lambda x: int(np.asarray(x).astype(dt)), v)
            return tag(r, dt) if is_sym(r) else dt.type(r)
        return wrap_int(core.real_round('trunc', v), dt)
    if dt.kind == 'f':
        if t in (SF, SR):
            if dt.itemsize < 8 and t is SF:
                return SF(v.sel, [float(np.asarray(x).astype(dt)) for x in v.vals], dt)
            return tag(v, dt)
        if t is SB:
            v = b2i(v)
        if type(v) is SI:
            if v.hi - v.lo <= 300:
                sel, vals = core.si_selector(v)
                return SF(sel, [float(x) for x in vals], dt)
            return core.int_to_float(v, dt)
    raise Unsupported("cast to %s" % dt)


def cast(arr, dt):
    if arr.dtype == dt:
        return arr.copy()
    if not arr.has_sym():
        with np.errstate(all='ignore'):
            return wrap(arr.native().astype(dt))
    out = np.empty(arr.a.shape, dtype=object)
    if out.ndim == 0:
        out[()] = cast_elem(arr.a[()], dt)
        return SA(out, dt)
    f, s = out.reshape(-1), arr.a.reshape(-1)
    for i in range(s.size):
        f[i] = cast_elem(s[i], dt)
    return SA(out, dt)


def scalar_dtype(x):
    if is_sym(x):
        if x.np is not None:
            return x.np
        return {SB: NPB, SI: NPI, SF: NPF, SR: NPF}[type(x)]
    return None


def make_array(v, dtype=None, copy=True, ndmin=0):
    """np.array(v, dtype)"""
    from . import models
    if dtype is not None:
        dtype = np.dtype(dtype)
    if type(v) is GA:
        v = v.resolve()
    if type(v) is SA:
        r = cast(v, dtype) if dtype is not None and dtype != v.dtype else (v.copy() if copy else v)
    elif type(v) is np.ndarray:
        r = wrap(np.array(v, dtype=dtype))
    elif is_sym(v):
        a = np.empty((), dtype=object)
        dt = dtype if dtype is not None else scalar_dtype(v)
        a[()] = cast_elem(v, dt)
        r = SA(a, dt)
    elif isinstance(v, models.SymBits):
        r = make_array(v.bit_list(), dtype or NPB)
    elif isinstance(v, models.SBytes):
        raise Unsupported("np.array(bytes)")
    elif isinstance(v, models.SArr):
        r = make_array(list(v.items), dtype or v.np_dtype)
    elif isinstance(v, (list, tuple, range)) or (hasattr(v, '__len__') and hasattr(v, '__getitem__')
                                                 and not isinstance(v, (str, bytes, dict, np.generic, type))):
        leaves = []

        def walk(x):
            if type(x) is GA:
                x = x.resolve()
            if type(x) is SA:
                leaves.extend(x.a.reshape(-1).tolist() if False else list(x.a.reshape(-1)))
                if x.a.size == 0:
                    leaves.append(x.dtype.type(0) if x.dtype != OBJ else None)
                return x.shape
            if isinstance(x, models.SymBits):
                x = x.bit_list()
            if isinstance(x, models.SArr):
                x = list(x.items)
            if type(x) is np.ndarray:
                leaves.extend(list(x.reshape(-1)))
                return x.shape
            if isinstance(x, (list, tuple, range)) and not is_sym(x):
                shp = None
                for y in x:
                    s = walk(y)
                    if shp is None:
                        shp = s
                    elif shp != s:
                        raise ValueError("setting an array element with a sequence. The requested array has an "
                                         "inhomogeneous shape")
                return (len(x),) + (shp or ())
            leaves.append(x)
            return ()
        n0 = len(v)
        shape = walk(v if isinstance(v, (list, tuple)) else list(v))
        if int(np.prod(shape)) == 0:
            r = wrap(np.zeros(shape, dtype=dtype or NPF))
        elif not any(is_sym(x) for x in leaves):
            if dtype is None and not all(isinstance(x, (bool, int, float, complex, np.generic, str, bytes)) for x in leaves):
                r = SA(obj_array(leaves, shape), OBJ)
            else:
                r = wrap(np.array(np.array(leaves, dtype=dtype).reshape(shape)))
        else:
            if dtype is None:
                dts = []
                for x in leaves:
                    d = scalar_dtype(x)
                    dts.append(d if d is not None else np.asarray(x).dtype)
                dt = np.result_type(*set(dts))
            else:
                dt = dtype
            r = SA(obj_array([cast_elem(x, dt) for x in leaves], shape), dt)
    else:
        r = wrap(np.array(v, dtype=dtype))
    while r.a.ndim < ndmin:
        r = SA(r.a[np.newaxis], r.dtype)
    return r


# -- guarded (symbolically compressed) arrays ---------------------------------
class GA:
    """the result of x[mask] with a symbolic mask: candidates with guards, in order.
    Element i is present iff guards[i]."""
    __slots__ = ('vals', 'guards', 'dtype', 'key')
    __array_ufunc__ = None

    def __init__(self, vals, guards, dtype, key):
        self.vals = vals          # list of scalars
        self.guards = guards      # list of z3 Bool
        self.dtype = np.dtype(dtype)
        self.key = key

    @property
    def __class__(self):
        return np.ndarray

    def resolve(self):
        """fork on the guards"""
        out = [v for v, g in zip(self.vals, self.guards) if E.decide(g)]
        return SA(obj_array(out), self.dtype)

    def __array_function__(self, func, types, args, kwargs):
        from . import npmodel
        return npmodel.array_function(func, args, kwargs)

    def map(self, f, dtype):
        return GA([f(v) for v in self.vals], self.guards, dtype, self.key)

    def as_SA(self):
        """all candidate values, ignoring guards (same order)"""
        return SA(obj_array(list(self.vals)), self.dtype)

    def _bin(self, op, o, rev=False):
        from . import npmodel
        if type(o) is GA:
            if o.key != self.key:
                a, b = self.resolve(), o.resolve()
                return npmodel.elementwise(op, b, a) if rev else npmodel.elementwise(op, a, b)
            ov = o.as_SA()
        elif is_sym(o) or isinstance(o, (int, float, np.generic)):
            ov = o
        elif isinstance(o, (np.ndarray, SA)) and asSA(o).size == 1:
            ov = o
        else:
            a = self.resolve()
            return npmodel.elementwise(op, o, a) if rev else npmodel.elementwise(op, a, o)
        r = npmodel.elementwise(op, ov, self.as_SA()) if rev else npmodel.elementwise(op, self.as_SA(), ov)
        return GA(list(r.a.reshape(-1)), self.guards, r.dtype, self.key)

    def index_into(self, arr):
        """arr[self] where self holds concrete indices"""
        if self.dtype.kind == 'b' or any(is_sym(v) for v in self.vals) or arr.a.ndim != 1:
            return arr[self.resolve()]
        return GA([arr.el(arr.a[int(v)]) for v in self.vals], self.guards, arr.dtype, self.key)

    def assign_into(self, arr, v):
        if any(is_sym(x) for x in self.vals) or arr.a.ndim != 1 or self.dtype.kind == 'b' or \
                len(set(int(x) for x in self.vals)) != len(self.vals):
            arr[self.resolve()] = v
            return
        if type(v) is GA:
            if v.key != self.key:
                arr[self.resolve()] = v.resolve()
                return
            vs = v.vals
        elif is_sym(v) or np.isscalar(v) or (isinstance(v, np.ndarray) and asSA(v).size == 1):
            if isinstance(v, np.ndarray):
                v = asSA(v).a.reshape(-1)[0]
            vs = [v] * len(self.vals)
        else:
            arr[self.resolve()] = v
            return
        for i, g, x in zip(self.vals, self.guards, vs):
            i = int(i)
            arr.a[i] = ite(mk_bool(g), cast_elem(x, arr.dtype), arr.a[i])

    def any(self, *a, **k):
        es = [z3.And(g, as_bool_expr(v)) for v, g in zip(self.vals, self.guards)]
        return mk_bool(z3.simplify(z3.Or(es)) if es else z3.BoolVal(False), NPB)

    def all(self, *a, **k):
        es = [z3.Implies(g, as_bool_expr(v)) for v, g in zip(self.vals, self.guards)]
        return mk_bool(z3.simplify(z3.And(es)) if es else z3.BoolVal(True), NPB)

    @property
    def size(self):
        return sum_syms([b2i(mk_bool(g)) for g in self.guards])

    @property
    def shape(self):
        return (self.size,)

    @property
    def ndim(self):
        return 1

    def __len__(self):
        return len(self.resolve())

    def __getitem__(self, k):
        return self.resolve()[k]

    def __setitem__(self, k, v):
        self.resolve()[k] = v

    def __iter__(self):
        return iter(self.resolve())

    def __contains__(self, x):
        return x in self.resolve()

    def __bool__(self):
        return bool(self.resolve())

    def copy(self):
        return GA(list(self.vals), self.guards, self.dtype, self.key)

    def astype(self, dt, **k):
        return GA([cast_elem(v, np.dtype(dt)) for v in self.vals], self.guards, dt, self.key)

    def sum(self, axis=None, **k):
        from . import npmodel
        a = SA(obj_array([ite(mk_bool(g), v, 0) for v, g in zip(self.vals, self.guards)]), self.dtype)
        return npmodel.np_sum(a)

    def __array__(self, dtype=None, copy=None):
        return self.resolve().__array__(dtype)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.resolve(), name)

    def __neg__(self):
        from . import npmodel
        r = npmodel.unary('neg', self.as_SA())
        return GA(list(r.a.reshape(-1)), self.guards, r.dtype, self.key)

    def __abs__(self):
        from . import npmodel
        r = npmodel.unary('abs', self.as_SA())
        return GA(list(r.a.reshape(-1)), self.guards, r.dtype, self.key)

    def __invert__(self):
        from . import npmodel
        r = npmodel.unary('invert', self.as_SA())
        return GA(list(r.a.reshape(-1)), self.guards, r.dtype, self.key)

    __hash__ = None


for _n in ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor']:
    setattr(GA, '__%s__' % _n, (lambda op: lambda s, o: s._bin(op, o))(_n))
    setattr(GA, '__r%s__' % _n, (lambda op: lambda s, o: s._bin(op, o, True))(_n))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(GA, '__%s__' % _n, (lambda op: lambda s, o: s._bin(op, o))(_n))


def mask_key(guards):
    for g in guards:
        E.keep.append(g)
    return tuple(g.get_id() for g in guards)


def guarded_take(arr, mask):
    """arr[mask], symbolic 1-d mask over the first axis"""
    if mask.a.ndim != 1 or arr.a.ndim != 1:
        return arr[mask.concrete()]
    if mask.a.shape[0] != arr.a.shape[0]:
        raise IndexError("boolean index did not match indexed array along dimension 0; dimension is %d but corresponding "
                         "boolean dimension is %d" % (arr.a.shape[0], mask.a.shape[0]))
    guards = [z3.simplify(as_bool_expr(x)) for x in mask.a]
    keep = [i for i, g in enumerate(guards) if not z3.is_false(g)]
    gs = [guards[i] for i in keep]
    return GA([arr.el(arr.a[i]) for i in keep], gs, arr.dtype, ('mask', arr.a.shape[0]) + mask_key(gs) + tuple(keep))


def guarded_put(arr, mask, v):
    if mask.a.ndim != 1 or arr.a.ndim != 1:
        if mask.a.shape == arr.a.shape and (is_sym(v) or np.isscalar(v)):
            f, m = arr.a, mask.a
            for ix in np.ndindex(*f.shape):
                f[ix] = ite(mk_bool(as_bool_expr(m[ix])), cast_elem(v, arr.dtype), f[ix])
            return
        arr[mask.concrete()] = v
        return
    if mask.a.shape[0] != arr.a.shape[0]:
        raise IndexError("boolean index did not match indexed array along dimension 0")
    guards = [z3.simplify(as_bool_expr(x)) for x in mask.a]
    keep = [i for i, g in enumerate(guards) if not z3.is_false(g)]
    gs = [guards[i] for i in keep]
    GA([np.int64(i) for i in keep], gs, NPI, ('mask', arr.a.shape[0]) + mask_key(gs) + tuple(keep)).assign_into(arr, v)


def nonzero_ga(arr):
    """indices where a 1-d array is non-zero"""
    guards = [z3.simplify(as_bool_expr(x)) for x in arr.a]
    keep = [i for i, g in enumerate(guards) if not z3.is_false(g)]
    gs = [guards[i] for i in keep]
    return GA([np.int64(i) for i in keep], gs, NPI, ('mask', arr.a.shape[0]) + mask_key(gs) + tuple(keep))
