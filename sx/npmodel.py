"""Models of numpy functions over SA/GA arrays. Anything not listed falls back to `generic`:
native numpy when all arguments are concrete; otherwise the real function tabulated over the finite
symbolic arguments, or forked over their feasible values."""
import math
import itertools
import operator
import numpy as np
import z3
from . import core
from .core import (E, SB, SI, SF, SR, SYM_TYPES, is_sym, Unsupported, tag, untag, ite, mk_bool, as_bool_expr, binop, cmpop,
                   unop, table_apply, NPF, NPB, NPI, b2i, wrap_int, realise, sum_syms, finite, join_selectors, wrap_table,
                   PYOP)
from .arrays import SA, GA, OBJ, obj_array, to_obj, wrap, asSA, cast, cast_elem, make_array, nonzero_ga, scalar_dtype, mask_key

NPOP = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'truediv': np.true_divide, 'floordiv': np.floor_divide,
        'mod': np.remainder, 'pow': np.power, 'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor,
        'lshift': np.left_shift, 'rshift': np.right_shift, 'lt': np.less, 'le': np.less_equal, 'gt': np.greater,
        'ge': np.greater_equal, 'eq': np.equal, 'ne': np.not_equal, 'min': np.minimum, 'max': np.maximum,
        'land': np.logical_and, 'lor': np.logical_or, 'lxor': np.logical_xor, 'gcd': np.gcd, 'fmin': np.fmin,
        'fmax': np.fmax}
UF2OP = {v: k for k, v in NPOP.items()}
CMP = ('lt', 'le', 'gt', 'ge', 'eq', 'ne')


def is_arr(x):
    return type(x) in (SA, GA) or type(x) is np.ndarray


def has_sym(x):
    if type(x) is SA:
        return x.has_sym()
    if type(x) is GA:
        return True
    return is_sym(x)


def native(x):
    if type(x) is SA:
        return x.native()
    return x


def sample(x):
    if type(x) is SA:
        return np.ones((1,) * x.a.ndim, dtype=x.dtype) if x.dtype != OBJ else np.ones((1,) * x.a.ndim)
    if is_sym(x):
        if x.np is not None:
            return x.np.type(1)
        if type(x) is SI:
            return x.hi if x.hi > 0 else x.lo
        return x.__class__(1)
    return x


def res_dtype(op, a, b):
    if op in CMP or op in ('land', 'lor', 'lxor'):
        return NPB
    with np.errstate(all='ignore'):
        try:
            return np.asarray(NPOP[op](sample(a), sample(b))).dtype
        except ValueError:
            return np.result_type(np.asarray(sample(a)).dtype, np.asarray(sample(b)).dtype)


def el_op(op, x, y, rdt):
    if not is_sym(x) and not is_sym(y):
        if rdt == OBJ or isinstance(x, object) and not isinstance(x, (int, float, np.generic, bool)):
            return PYOP[op](x, y)
        with np.errstate(all='ignore'):
            return NPOP[op](x, y)
    if op in CMP:
        r = cmpop(op, x, y)
        return tag(r, NPB) if is_sym(r) else np.bool_(r)
    if op in ('land', 'lor', 'lxor'):
        f = {'land': z3.And, 'lor': z3.Or, 'lxor': z3.Xor}[op]
        return mk_bool(z3.simplify(f(as_bool_expr(x), as_bool_expr(y))), NPB)
    if op in ('min', 'fmin'):
        return ite(cmpop('le', x, y) if is_sym(x) or is_sym(y) else x <= y, x, y)
    if op in ('max', 'fmax'):
        return ite(cmpop('ge', x, y) if is_sym(x) or is_sym(y) else x >= y, x, y)
    if rdt.kind == 'b':
        if op in ('and', 'mul'):
            return mk_bool(z3.simplify(z3.And(as_bool_expr(x), as_bool_expr(y))), NPB)
        if op in ('or', 'add'):
            return mk_bool(z3.simplify(z3.Or(as_bool_expr(x), as_bool_expr(y))), NPB)
        if op == 'xor':
            return mk_bool(z3.simplify(z3.Xor(as_bool_expr(x), as_bool_expr(y))), NPB)
        raise TypeError("numpy boolean %s not supported" % op)
    if rdt.kind in 'iu':
        x, y = b2i(untag(x)), b2i(untag(y))
        if op == 'gcd':
            r = table_or_real(lambda p, q: int(np.gcd(int(p), int(q))), x, y)
        elif op == 'pow':
            if is_sym(y) and y.lo < 0 and bool(cmpop('lt', y, 0)):
                raise ValueError("Integers to negative integer powers are not allowed.")
            r = table_or_real(lambda p, q: int(np.power(rdt.type(p), rdt.type(q))) if q >= 0 else 0, x, y) if not (
                not is_sym(y) and int(y) in (0, 1, 2, 3)) else binop('pow', x, y)
        elif op in ('floordiv', 'mod') and (is_sym(y) and y.lo <= 0 <= y.hi or not is_sym(y) and y == 0):
            with np.errstate(all='ignore'):
                r = table_or_real(lambda p, q: int(NPOP[op](rdt.type(p), rdt.type(q))), x, y)
        else:
            r = binop(op, x, y)
        return wrap_int(r, rdt)
    if rdt.kind == 'f':
        xx = tag(b2i(x), NPF) if is_sym(x) else np.float64(x)
        yy = tag(b2i(y), NPF) if is_sym(y) else np.float64(y)
        r = binop(op, xx, yy)
        return cast_elem(r, rdt)
    if rdt == OBJ:
        return PYOP[op](x, y)
    raise Unsupported("elementwise %s on %s" % (op, rdt))


def table_or_real(f, *args):
    try:
        return table_apply(f, *args)
    except Unsupported:
        return f(*[realise(a) if is_sym(a) else a for a in args])


def elementwise(op, a, b):
    """binary elementwise op with broadcasting"""
    if type(a) is GA and type(b) is not GA or type(a) is GA:
        return a._bin(op, b)
    if type(b) is GA:
        return b._bin(op, a, True)
    from . import models
    for x in (a, b):
        if x is None or isinstance(x, (str, bytes, dict)) and not is_sym(x):
            if op in ('eq', 'ne'):
                o = asSA(b if x is a else a)
                return SA(obj_array([np.bool_(PYOP[op](y, x)) for y in o.a.reshape(-1)], o.a.shape), NPB)
            return NotImplemented
    if isinstance(a, (list, tuple, models.SymBits)) and not is_sym(a):
        a = make_array(a)
    if isinstance(b, (list, tuple, models.SymBits)) and not is_sym(b):
        b = make_array(b)
    if type(a) is np.ndarray:
        a = wrap(a)
    if type(b) is np.ndarray:
        b = wrap(b)
    for x in (a, b):
        if type(x) is not SA and not core.is_num(x):
            if op in ('eq', 'ne'):
                o = asSA(b if x is a else a)
                return SA(obj_array([np.bool_(PYOP[op](y, x)) for y in o.a.reshape(-1)], o.a.shape), NPB)
            return NotImplemented
    sa, sb = has_sym(a), has_sym(b)
    isobj = (type(a) is SA and a.dtype == OBJ) or (type(b) is SA and b.dtype == OBJ)
    if not sa and not sb and not isobj:
        with np.errstate(all='ignore'):
            r = NPOP[op](native(a), native(b))
        return wrap(r)
    rdt = res_dtype(op, a, b) if not isobj else (NPB if op in CMP else OBJ)
    aa = a.a if type(a) is SA else _zero_d(a)
    bb = b.a if type(b) is SA else _zero_d(b)
    try:
        A, B = np.broadcast_arrays(aa, bb)
    except ValueError:
        raise ValueError("operands could not be broadcast together with shapes %s %s" % (aa.shape, bb.shape))
    out = np.empty(A.shape, dtype=object)
    if out.ndim == 0:
        r = el_op(op, A[()], B[()], rdt)
        return SA(out, rdt).el(r) if rdt != OBJ else r
    fo = out.reshape(-1)
    for i, (x, y) in enumerate(zip(A.reshape(-1), B.reshape(-1))):
        fo[i] = el_op(op, x, y, rdt)
    return SA(out, rdt)


def _zero_d(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


# -- unary --------------------------------------------------------------------
FLOAT_UN = {'sqrt': np.sqrt, 'log': np.log, 'log2': np.log2, 'log10': np.log10, 'log1p': np.log1p, 'exp': np.exp,
            'exp2': np.exp2, 'expm1': np.expm1, 'sin': np.sin, 'cos': np.cos, 'tanh': np.tanh, 'floor': np.floor,
            'ceil': np.ceil, 'rint': np.rint, 'trunc': np.trunc, 'reciprocal': np.reciprocal, 'arctanh': np.arctanh,
            'tan': np.tan, 'arccos': np.arccos, 'arcsin': np.arcsin, 'sinh': np.sinh, 'cosh': np.cosh, 'cbrt': np.cbrt,
            'arctan': np.arctan, 'deg2rad': np.deg2rad, 'rad2deg': np.rad2deg, 'spacing': np.spacing}
OTHER_UN = {'neg': np.negative, 'abs': np.absolute, 'invert': np.invert, 'sign': np.sign, 'isnan': np.isnan,
            'isinf': np.isinf, 'isfinite': np.isfinite, 'lnot': np.logical_not, 'square': np.square, 'fabs': np.fabs,
            'pos': np.positive, 'signbit': np.signbit, 'conj': np.conjugate}
UN = {**FLOAT_UN, **OTHER_UN}
UF2UN = {v: k for k, v in UN.items()}


def el_unary(op, x, dt, rdt):
    if not is_sym(x):
        with np.errstate(all='ignore'):
            return rdt.type(UN[op](dt.type(x) if dt != OBJ else x))
    if op in FLOAT_UN:
        if type(x) is SR:
            if op == 'sqrt':
                return core.sqrt_sym(x, rdt)
            if op == 'reciprocal':
                return binop('truediv', np.float64(1), tag(x, NPF))
            if op in ('floor', 'ceil', 'rint', 'trunc'):
                return tag(core.int_to_float(core.real_round(op, x), NPF), rdt)
            raise Unsupported("%s of a real" % op)
        if op in ('floor', 'ceil', 'rint', 'trunc') and type(x) in (SI, SB):
            return cast_elem(b2i(x), rdt)

        def f(v):
            with np.errstate(all='ignore'):
                return float(UN[op](np.float64(v)))
        return tag(table_or_real(f, b2i(x)), rdt)
    if op == 'lnot':
        return mk_bool(z3.simplify(z3.Not(as_bool_expr(x))), NPB)
    if op in ('isnan', 'isinf', 'isfinite'):
        if type(x) is SF:
            r = table_apply(lambda v: bool(UN[op](v)), x)
            return tag(r, NPB) if is_sym(r) else np.bool_(r)
        return np.bool_(op == 'isfinite')
    if op == 'sign':
        one = rdt.type(1)
        return ite(cmpop('gt', x, 0), one, ite(cmpop('lt', x, 0), rdt.type(-1) if rdt.kind != 'u' else one, rdt.type(0)))
    if op == 'signbit':
        return tag(cmpop('lt', x, 0), NPB)
    if op == 'square':
        return el_op('mul', x, x, rdt)
    if op in ('pos', 'conj'):
        return x
    if op == 'fabs':
        return cast_elem(unop('abs', x), rdt)
    if op == 'invert' and dt.kind == 'b':
        return mk_bool(z3.Not(as_bool_expr(x)), NPB)
    r = unop(op, tag(x, dt))
    return cast_elem(r, rdt)


def unary(op, a):
    if type(a) is GA:
        r = unary(op, a.as_SA())
        return GA(list(r.a.reshape(-1)), a.guards, r.dtype, a.key)
    scalar = not is_arr(a) and not isinstance(a, (list, tuple))
    A = asSA(a)
    if not A.has_sym():
        with np.errstate(all='ignore'):
            r = UN[op](A.native())
        return wrap(r)
    with np.errstate(all='ignore'):
        rdt = np.asarray(UN[op](np.ones(1, dtype=A.dtype))).dtype
    out = np.empty(A.a.shape, dtype=object)
    if out.ndim == 0:
        r = el_unary(op, A.a[()], A.dtype, rdt)
        return SA(out, rdt).el(r)
    f = out.reshape(-1)
    for i, x in enumerate(A.a.reshape(-1)):
        f[i] = el_unary(op, x, A.dtype, rdt)
    return SA(out, rdt)


# -- ufunc entry ----------------------------------------------------------------
def array_ufunc(uf, method, args, kw):
    kw = dict(kw)
    out = kw.pop('out', None)
    dt = kw.pop('dtype', None)
    where = kw.pop('where', True)
    if method == '__call__':
        if uf in UF2OP and len(args) == 2:
            r = elementwise(UF2OP[uf], args[0], args[1])
            if r is NotImplemented:
                raise TypeError("ufunc not supported for input types")
        elif uf in UF2UN and len(args) == 1:
            r = unary(UF2UN[uf], args[0])
        elif uf is np.matmul:
            r = matmul(*args)
        elif uf is np.divmod:
            return elementwise('floordiv', *args), elementwise('mod', *args)
        else:
            r = generic(uf, args, kw)
    elif method == 'reduce':
        axis = kw.get('axis', args[1] if len(args) > 1 else 0)
        fn = {np.add: np_sum, np.maximum: np_max, np.minimum: np_min, np.logical_and: np_all, np.logical_or: np_any,
              np.multiply: np_prod}.get(uf)
        if fn is not None:
            r = fn(args[0], axis=axis, keepdims=kw.get('keepdims', False))
        elif uf in UF2OP and uf not in (np.subtract,):
            r = reduce_axis(asSA(args[0]), axis, False, lambda xs: fold(UF2OP[uf], xs, asSA(args[0]).dtype),
                            asSA(args[0]).dtype)
        else:
            r = generic(uf.reduce, args, kw)
    elif method == 'outer' and uf in UF2OP:
        a, b = asSA(args[0]), asSA(args[1])
        r = elementwise(UF2OP[uf], SA(a.a.reshape(a.a.shape + (1,) * b.a.ndim), a.dtype), b)
    elif method == 'accumulate' and uf in UF2OP:
        r = accumulate(UF2OP[uf], asSA(args[0]), kw.get('axis', 0))
    elif method == 'at' and uf in UF2OP:
        arr, idx = args[0], asSA(args[1])
        vals = args[2] if len(args) > 2 else None
        for j, i in enumerate(idx):
            v = asSA(vals)
            v = v.a[()] if v.a.ndim == 0 else v[j]
            arr[i] = elementwise(UF2OP[uf], arr[i], v)
        return None
    else:
        r = generic(getattr(uf, method), args, kw)
    if dt is not None:
        r = cast(r, np.dtype(dt)) if type(r) is SA else cast_elem(r, np.dtype(dt))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if where is True:
            o[...] = r
        else:
            o[...] = np_where(where, r, o)
        return o
    if where is not True and method == '__call__':
        raise Unsupported("ufunc where without out")
    return r


def fold(op, xs, dt):
    r = xs[0]
    for x in xs[1:]:
        r = el_op(op, r, x, dt)
    return r


def accumulate(op, a, axis):
    out = a.a.copy()
    m = np.moveaxis(out, axis, -1)
    for ix in np.ndindex(*m.shape[:-1]):
        row = m[ix]
        for i in range(1, len(row)):
            row[i] = el_op(op, row[i - 1], row[i], a.dtype)
    return SA(out, a.dtype)


# -- reductions -------------------------------------------------------------------
def reduce_axis(a, axis, keepdims, f, rdt):
    """apply f(list of elems)->elem along axis"""
    if axis is None:
        r = f(list(a.a.reshape(-1)))
        r = SA(np.empty(0, dtype=object), rdt).el(r) if rdt != OBJ else r
        if keepdims:
            return SA(obj_array([r], (1,) * a.a.ndim), rdt)
        return r
    if isinstance(axis, tuple):
        axes = sorted(x % a.a.ndim for x in axis)
        rest = [x for x in range(a.a.ndim) if x not in axes]
        m = np.transpose(a.a, rest + axes)
        m = m.reshape(tuple(a.a.shape[x] for x in rest) + (-1,))
        if keepdims:
            raise Unsupported("keepdims with tuple axis")
    else:
        if not -a.a.ndim <= axis < a.a.ndim:
            raise np.exceptions.AxisError(axis, a.a.ndim)
        m = np.moveaxis(a.a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    if out.ndim == 0:
        r = f(list(m))
        r = SA(np.empty(0, dtype=object), rdt).el(r) if rdt != OBJ else r
        return SA(obj_array([r], (1,) * a.a.ndim), rdt) if keepdims else r
    for ix in np.ndindex(*out.shape):
        out[ix] = f(list(m[ix]))
    r = SA(out, rdt)
    if keepdims:
        r = SA(np.expand_dims(out, axis), rdt)
    return r


def _red_native(fn, a, kw):
    with np.errstate(all='ignore'):
        return wrap(fn(a.native(), **kw))


def sum_dtype(dt):
    if dt == OBJ:
        return OBJ
    return np.sum(np.ones(1, dtype=dt)).dtype


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
    if type(a) is GA:
        return a.sum()
    if not is_arr(a) and not isinstance(a, (list, tuple)):
        if hasattr(a, '__iter__') and not is_sym(a):
            a = list(a)
    A = asSA(a)
    if where is not True:
        A = asSA(np_where(where, A, np.zeros((), dtype=A.dtype)))
    if not A.has_sym() and A.dtype != OBJ:
        return _red_native(np.sum, A, dict(axis=axis, dtype=dtype, keepdims=keepdims))
    rdt = np.dtype(dtype) if dtype is not None else sum_dtype(A.dtype)

    def f(xs):
        if rdt.kind == 'f':
            xs = [tag(b2i(x), NPF) if is_sym(x) else np.float64(x) for x in xs]
            conc = [x for x in xs if not is_sym(x)]
            sy = [x for x in xs if is_sym(x)]
            if 2 < len(xs) < 8 and any(type(x) is core.SF for x in sy) and not any(type(x) is core.SR for x in sy):
                r = xs[0]       # the order of numpy's own sum, so that tabulated roundings are the real ones
                for x in xs[1:]:
                    r = r + x
                return cast_elem(r, rdt)
            r = sum_syms(sy + ([np.float64(sum(conc))] if conc and sum(conc) != 0 else []))
            return cast_elem(r, rdt)
        if rdt == OBJ:
            return sum_syms(xs)
        xs = [b2i(untag(x)) if is_sym(x) else int(x) for x in xs]
        c = sum(x for x in xs if not is_sym(x))
        sy = [x for x in xs if is_sym(x)]
        if c:
            sy.append(c)
        return wrap_int(sum_syms(sy), rdt)
    r = reduce_axis(A, axis, keepdims, f, rdt)
    return r if initial is None else elementwise('add', r, initial)


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if type(a) is GA:
        a = a.resolve()
    A = asSA(a)
    if not A.has_sym() and A.dtype != OBJ:
        return _red_native(np.mean, A, dict(axis=axis, keepdims=keepdims))
    n = A.a.size if axis is None else (int(np.prod([A.a.shape[x] for x in axis])) if isinstance(axis, tuple)
                                       else A.a.shape[axis])
    s = np_sum(A, axis=axis, keepdims=keepdims)
    return elementwise('truediv', s, n)


def np_prod(a, axis=None, dtype=None, keepdims=False, **kw):
    A = asSA(a)
    if not A.has_sym():
        return _red_native(np.prod, A, dict(axis=axis, keepdims=keepdims))
    rdt = np.prod(np.ones(1, dtype=A.dtype)).dtype
    return reduce_axis(A, axis, keepdims, lambda xs: fold('mul', xs, rdt), rdt)


def np_max(a, axis=None, out=None, keepdims=False, initial=None, where=True, **kw):
    A = asSA(a)
    if A.a.size == 0 and initial is None:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if where is not True:
        raise Unsupported("max with where")
    if not A.has_sym() and not is_sym(initial):
        return _red_native(np.max, A, dict(axis=axis, keepdims=keepdims, **({} if initial is None else dict(initial=initial))))
    if A.a.size == 0:
        raise Unsupported("max of nothing")
    r = reduce_axis(A, axis, keepdims, lambda xs: fold('max', xs, A.dtype), A.dtype)
    return r if initial is None else elementwise('max', r, initial)


def np_min(a, axis=None, out=None, keepdims=False, initial=None, where=True, **kw):
    A = asSA(a)
    if A.a.size == 0 and initial is None:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    if where is not True:
        raise Unsupported("min with where")
    if not A.has_sym() and not is_sym(initial):
        return _red_native(np.min, A, dict(axis=axis, keepdims=keepdims, **({} if initial is None else dict(initial=initial))))
    if A.a.size == 0:
        raise Unsupported("min of nothing")
    r = reduce_axis(A, axis, keepdims, lambda xs: fold('min', xs, A.dtype), A.dtype)
    return r if initial is None else elementwise('min', r, initial)


def np_any(a, axis=None, out=None, keepdims=False, **kw):
    if type(a) is GA:
        return a.any()
    A = asSA(a)
    if not A.has_sym():
        return _red_native(np.any, A, dict(axis=axis, keepdims=keepdims))
    return reduce_axis(A, axis, keepdims, lambda xs: mk_bool(
        z3.simplify(z3.Or([as_bool_expr(x) for x in xs])) if xs else z3.BoolVal(False), NPB), NPB)


def np_all(a, axis=None, out=None, keepdims=False, **kw):
    if type(a) is GA:
        return a.all()
    A = asSA(a)
    if not A.has_sym():
        return _red_native(np.all, A, dict(axis=axis, keepdims=keepdims))
    return reduce_axis(A, axis, keepdims, lambda xs: mk_bool(
        z3.simplify(z3.And([as_bool_expr(x) for x in xs])) if xs else z3.BoolVal(True), NPB), NPB)


def np_count_nonzero(a, axis=None, keepdims=False):
    if type(a) is GA:
        a = a != 0
        return a.sum()
    A = asSA(a)
    r = np_sum(cast(A, NPB), axis=axis, keepdims=keepdims)
    return untag(r) if axis is None else r


def _arg(op):
    def f(a, axis=None, out=None, keepdims=False):
        A = asSA(a)
        if A.a.size == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        if not A.has_sym():
            return wrap((np.argmin if op == 'lt' else np.argmax)(A.native(), axis=axis))

        def g(xs):
            best, idx = xs[0], np.int64(0)
            for i in range(1, len(xs)):
                c = el_op(op, xs[i], best, NPB)
                idx = ite(c, np.int64(i), idx)
                best = ite(c, xs[i], best)
            return tag(idx, NPI) if is_sym(idx) else np.int64(idx)
        return reduce_axis(A, axis, False, g, NPI)
    return f


def np_var(a, axis=None, ddof=0, **kw):
    A = asSA(a)
    if not A.has_sym():
        return _red_native(np.var, A, dict(axis=axis, ddof=ddof))
    if axis is not None:
        return reduce_axis(A, axis, False, lambda xs: np_var(SA(obj_array(xs), A.dtype), ddof=ddof), NPF)
    try:
        return generic_table(np.var, (A,), dict(ddof=ddof))
    except Unsupported:
        m = np_mean(A)
        d = elementwise('sub', A, m)
        return elementwise('truediv', np_sum(elementwise('mul', d, d)), A.a.size - ddof)


def np_std(a, axis=None, ddof=0, **kw):
    A = asSA(a)
    if not A.has_sym():
        return _red_native(np.std, A, dict(axis=axis, ddof=ddof))
    if axis is None:
        try:
            return generic_table(np.std, (A,), dict(ddof=ddof))
        except Unsupported:
            pass
    return unary('sqrt', np_var(A, axis=axis, ddof=ddof))


def np_cumsum(a, axis=None, dtype=None, out=None):
    A = asSA(a)
    if not A.has_sym():
        return wrap(np.cumsum(A.native(), axis=axis))
    if axis is None:
        A, axis = A.ravel(), 0
    return accumulate('add', cast(A, sum_dtype(A.dtype)), axis)


def np_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    r = a
    if type(a) is GA:
        vals = a.as_SA()
        if not is_arr(a_min) and not is_arr(a_max):
            r = np_clip(vals, a_min, a_max)
            return GA(list(r.a.reshape(-1)), a.guards, r.dtype, a.key)
        a = a.resolve()
        r = a
    if a_min is not None:
        r = elementwise('max', r, a_min)
    if a_max is not None:
        r = elementwise('min', r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def np_where(cond, *xy):
    if not xy:
        A = asSA(cond)
        if not A.has_sym():
            return wrap(np.where(A.native()))
        if A.a.ndim == 1:
            return (nonzero_ga(A),)
        return wrap(np.where(A.concrete()))
    x, y = xy
    C = asSA(cond)
    if isinstance(x, (list, tuple)):
        x = make_array(x)
    if isinstance(y, (list, tuple)):
        y = make_array(y)
    if type(x) is GA:
        x = x.resolve()
    if type(y) is GA:
        y = y.resolve()
    if not C.has_sym() and not has_sym(x) and not has_sym(y) and not (type(x) is SA and x.dtype == OBJ):
        return wrap(np.where(C.native(), native(x), native(y)))
    rdt = np.where(True, sample(x), sample(y)).dtype
    A, X, Y = np.broadcast_arrays(C.a, x.a if type(x) is SA else _zero_d(x), y.a if type(y) is SA else _zero_d(y))
    out = np.empty(A.shape, dtype=object)
    if out.ndim == 0:
        out[()] = cast_elem(ite(mk_bool(as_bool_expr(A[()])), X[()], Y[()]), rdt)
        return SA(out, rdt)
    f = out.reshape(-1)
    for i, (c, p, q) in enumerate(zip(A.reshape(-1), X.reshape(-1), Y.reshape(-1))):
        p, q = cast_elem(p, rdt), cast_elem(q, rdt)
        f[i] = ite(mk_bool(z3.simplify(as_bool_expr(c))), p, q)
    return SA(out, rdt)


def np_flatnonzero(a):
    A = asSA(a)
    A = A.ravel()
    if not A.has_sym():
        return wrap(np.flatnonzero(A.native()))
    return nonzero_ga(A)


def np_nonzero(a):
    return np_where(a)


def matmul(a, b, out=None, **kw):
    A, B = asSA(a), asSA(b)
    if not A.has_sym() and not B.has_sym():
        with np.errstate(all='ignore'):
            return wrap(np.matmul(A.native(), B.native()))
    rdt = np.result_type(A.dtype, B.dtype)
    x = A.a if A.a.ndim > 1 else A.a[np.newaxis]
    y = B.a if B.a.ndim > 1 else B.a[:, np.newaxis]
    if x.ndim > 2 or y.ndim > 2:
        raise Unsupported("matmul >2d")
    if x.shape[1] != y.shape[0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    out = np.empty((x.shape[0], y.shape[1]), dtype=object)
    for i in range(x.shape[0]):
        for j in range(y.shape[1]):
            terms = [el_op('mul', x[i, k], y[k, j], rdt) for k in range(x.shape[1])]
            r = terms[0] if terms else rdt.type(0)
            for t in terms[1:]:
                r = el_op('add', r, t, rdt)
            out[i, j] = r
    if A.a.ndim == 1:
        out = out[0]
    if B.a.ndim == 1:
        out = out[..., 0]
    if isinstance(out, np.ndarray) and out.ndim == 0:
        out = out[()]
    if not isinstance(out, np.ndarray):
        return SA(np.empty(0, dtype=object), rdt).el(out)
    return SA(out, rdt)


def np_dot(a, b, out=None):
    if not is_arr(a) and not isinstance(a, (list, tuple)) or not is_arr(b) and not isinstance(b, (list, tuple)):
        return elementwise('mul', a, b)
    A, B = asSA(a), asSA(b)
    if A.a.ndim == 0 or B.a.ndim == 0:
        return elementwise('mul', A, B)
    return matmul(A, B)


def np_inner(a, b):
    if is_arr(b) or isinstance(b, (list, tuple)):
        B = asSA(b)
        if B.a.ndim > 1:
            return np_dot(a, SA(np.moveaxis(B.a, -1, 0) if B.a.ndim == 2 else np.swapaxes(B.a, -1, -2), B.dtype))
    return np_dot(a, b)


def np_vdot(a, b):
    return np_dot(asSA(a).ravel(), asSA(b).ravel())


def np_outer(a, b, out=None):
    A, B = asSA(a).ravel(), asSA(b).ravel()
    return elementwise('mul', SA(A.a[:, None], A.dtype), B)


def np_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    A = asSA(ar)
    if not A.has_sym():
        return wrap(np.unique(A.native(), return_index, return_inverse, return_counts, axis=axis))
    if axis is not None or return_index or A.dtype.kind not in 'iub' or return_inverse:
        return wrap(np.unique(A.concrete(), return_index, return_inverse, return_counts, axis=axis))
    els = [b2i(untag(x)) if is_sym(x) else int(x) for x in A.a.reshape(-1)]
    lo = min(core.rng(x)[0] for x in els)
    hi = max(core.rng(x)[1] for x in els)
    if hi - lo > 16:
        return wrap(np.unique(A.concrete(), return_index, return_inverse, return_counts))
    vals, counts, guards = [], [], []
    for v in range(lo, hi + 1):
        eqs = [cmpop('eq', x, v) if is_sym(x) else x == v for x in els]
        present = z3.simplify(z3.Or([as_bool_expr(c) for c in eqs]))
        if not z3.is_false(present):
            vals.append(A.dtype.type(v))
            guards.append(present)
            counts.append(sum_syms([b2i(c) if is_sym(c) else int(c) for c in eqs]))
    key = ('uniq',) + mask_key(guards)
    V = GA(vals, guards, A.dtype, key)
    C = GA([tag(c, NPI) if is_sym(c) else np.int64(c) for c in counts], guards, NPI, key)
    if all(z3.is_true(g) for g in guards):
        V, C = V.as_SA(), C.as_SA()
    return (V, C) if return_counts else V


def np_sort(a, axis=-1, kind=None, order=None):
    A = asSA(a)
    if not A.has_sym():
        return wrap(np.sort(A.native(), axis=axis))
    if axis is None:
        A, axis = A.ravel(), 0
    out = A.a.copy()
    m = np.moveaxis(out, axis, -1)
    for ix in np.ndindex(*m.shape[:-1]):
        row = m[ix]
        n = len(row)
        for i in range(n):
            for j in range(0, n - 1 - i):
                x, y = row[j], row[j + 1]
                c = el_op('le', x, y, NPB)
                row[j], row[j + 1] = ite(c, x, y), ite(c, y, x)
    return SA(out, A.dtype)


def np_packbits(a, axis=None, bitorder='big'):
    A = asSA(a)
    if A.dtype.kind not in 'iub':
        raise TypeError("Expected an input array of integer or boolean data type")
    if not A.has_sym() or (axis is not None and A.a.ndim > 1):
        return wrap(np.packbits(A.native() if not A.has_sym() else A.concrete(), axis=axis, bitorder=bitorder))
    bits = [as_bool_expr(x) for x in A.a.reshape(-1)]
    while len(bits) % 8:
        bits.append(core.FALSE)
    out = []
    for i in range(0, len(bits), 8):
        grp = bits[i:i + 8]
        if bitorder == 'little':
            grp = grp[::-1]
        out.append(bits_to_byte(grp))
    return SA(obj_array([tag(x, np.dtype(np.uint8)) if is_sym(x) else np.uint8(x) for x in out]), np.uint8)


def bits_to_byte(grp):
    return core.lin_int([core.xset(z3.simplify(g)) for g in reversed(grp)])


def np_unpackbits(a, axis=None, count=None, bitorder='big'):
    A = asSA(a)
    if A.dtype != np.uint8:
        raise TypeError("Expected an input array of unsigned byte data type")
    if not A.has_sym() or axis is not None and A.a.ndim > 1:
        return wrap(np.unpackbits(A.native() if not A.has_sym() else A.concrete(), axis=axis, count=count, bitorder=bitorder))
    u8 = np.dtype(np.uint8)
    out = []
    for x in A.a.reshape(-1):
        bs = []
        for i in range(7, -1, -1):
            if is_sym(x):
                b = core.self_bit(x, i)
                bs.append(tag(b, u8) if is_sym(b) else np.uint8(b))
            else:
                bs.append(np.uint8((int(x) >> i) & 1))
        out += bs if bitorder == 'big' else bs[::-1]
    if count is not None:
        out = out[:count] if count >= 0 else out[:count]
    return SA(obj_array(out), np.uint8)


def np_frombuffer(buf, dtype=float, count=-1, offset=0, **kw):
    from . import models
    dt = np.dtype(dtype)
    if isinstance(buf, models.SBytes):
        items = list(buf.items)
    elif isinstance(buf, models.SArr):
        items = list(buf.items)
    else:
        return wrap(np.frombuffer(buf, dtype=dt, count=count, offset=offset))
    if not any(is_sym(x) for x in items):
        return wrap(np.frombuffer(bytes(int(x) for x in items), dtype=dt, count=count, offset=offset))
    if dt != np.uint8:
        raise Unsupported("frombuffer dtype")
    items = items[offset:]
    if count >= 0:
        items = items[:count]
    return SA(obj_array([tag(x, dt) if is_sym(x) else np.uint8(x) for x in items]), dt)


def np_array_equal(a, b, equal_nan=False):
    A, B = asSA(a), asSA(b)
    if A.shape != B.shape:
        return False
    return np_all(elementwise('eq', A, B))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = unary('abs', elementwise('sub', a, b))
    return elementwise('le', d, elementwise('add', atol, elementwise('mul', rtol, unary('abs', b))))


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    A = asSA(x)
    if not A.has_sym():
        return wrap(np.nan_to_num(A.native(), copy=copy, nan=nan, posinf=posinf, neginf=neginf))
    f = lambda v: float(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))

    def g(v):
        if type(v) is SF:
            r = table_apply(f, v)
            return tag(r, A.dtype) if is_sym(r) else np.float64(r)
        return v if is_sym(v) else A.dtype.type(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    r = SA(obj_array([g(v) for v in A.a.reshape(-1)], A.a.shape), A.dtype)
    if not is_arr(x):
        return r.a[()]
    return r


def np_bincount(x, weights=None, minlength=0):
    A = asSA(x)
    if not A.has_sym() and (weights is None or not has_sym(asSA(weights))):
        return wrap(np.bincount(A.native(), None if weights is None else asSA(weights).native(), minlength))
    if weights is not None:
        raise Unsupported("bincount weights")
    mx = np_max(A)
    hi = core.rng(untag(mx) if is_sym(mx) else int(mx))[1]
    n = minlength if hi < minlength else max(minlength, realise(untag(mx)) + 1)
    out = []
    for v in range(n):
        c = sum_syms([b2i(untag(cmpop('eq', y, v))) if is_sym(y) else int(y == v) for y in A.a])
        out.append(tag(c, NPI) if is_sym(c) else np.int64(c))
    return SA(obj_array(out), NPI)


def np_round(a, decimals=0, out=None):
    A = asSA(a)
    if not A.has_sym():
        return wrap(np.round(native(A) if is_arr(a) else a, decimals))

    def g(v):
        if not is_sym(v):
            return A.dtype.type(np.round(v, decimals))
        if type(v) in (SI, SB):
            return v
        if type(v) is SR:
            return tag(core.real_round('rint', v, 0 if decimals == 0 else 1), A.dtype)
        return tag(table_apply(lambda u: float(np.round(u, decimals)), v), A.dtype)
    r = SA(obj_array([g(v) for v in A.a.reshape(-1)], A.a.shape), A.dtype)
    return r if is_arr(a) else r.a[()]


def np_diff(a, n=1, axis=-1, **kw):
    A = asSA(a)
    if n != 1 or kw:
        return generic(np.diff, (a,), dict(n=n, axis=axis, **kw))
    m = np.moveaxis(A.a, axis, 0)
    r = elementwise('ne' if A.dtype.kind == 'b' else 'sub', SA(m[1:], A.dtype), SA(m[:-1], A.dtype))
    return SA(np.moveaxis(r.a, 0, axis), r.dtype)


def np_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return np_mean(a, axis=axis)
    w = asSA(weights)
    return elementwise('truediv', np_sum(elementwise('mul', a, w), axis=axis), np_sum(w, axis=None if axis is None else None))


def np_isin(a, b, **kw):
    A, B = asSA(a), asSA(b)
    if not A.has_sym() and not B.has_sym():
        return wrap(np.isin(A.native(), B.native(), **kw))
    inv = kw.get('invert', False)
    out = []
    for x in A.a.reshape(-1):
        cs = [as_bool_expr(el_op('eq', x, y, NPB)) for y in B.a.reshape(-1)]
        e = z3.simplify(z3.Or(cs)) if cs else z3.BoolVal(False)
        out.append(mk_bool(z3.simplify(z3.Not(e)) if inv else e, NPB))
    return SA(obj_array(out, A.a.shape), NPB)


# structural functions run natively on the object arrays
STRUCT = [np.concatenate, np.append, np.hstack, np.vstack, np.dstack, np.column_stack, np.stack, np.reshape, np.ravel,
          np.transpose, np.squeeze, np.expand_dims, np.tile, np.repeat, np.roll, np.flip, np.fliplr, np.flipud, np.diag,
          np.diagonal, np.swapaxes, np.moveaxis, np.atleast_1d, np.atleast_2d, np.split, np.array_split, np.broadcast_to,
          np.delete, np.insert, np.copy, np.take, np.rot90, np.block, np.hsplit, np.vsplit, np.row_stack, np.triu, np.tril,
          np.diagflat, np.rollaxis, np.resize]


def run_struct(func, args, kw):
    dts = []

    def conv(x, top=True):
        if type(x) is GA:
            x = x.resolve()
        if type(x) is SA:
            dts.append(x.dtype)
            return x.a
        if type(x) is np.ndarray:
            dts.append(x.dtype)
            return to_obj(x) if x.dtype.kind in 'fiub' and func not in () else x
        if type(x) in (list, tuple):
            if any(is_arr(y) or type(y) in (list, tuple) and any(is_arr(w) for w in y) for y in x):
                return type(x)(conv(y, False) for y in x)
            if any(is_sym(y) for y in x):
                s = make_array(x)
                dts.append(s.dtype)
                return s.a
            return x
        if is_sym(x):
            dts.append(scalar_dtype(x))
            return _zero_d(x) if func in (np.append, np.insert) else realise(x)
        return x
    a = list(args)
    if func is np.take and len(a) + len(kw) == 2 or func is np.take and len(a) == 2 and list(kw) == ['axis']:
        arr, ix = (a + [kw.get('indices')])[:2]
        arr = arr.resolve() if type(arr) is GA else (make_array(arr) if type(arr) is not SA else arr)
        if arr.a.ndim == 1 or kw.get('axis') == 0:
            return arr[make_array(ix) if type(ix) in (list, tuple) else ix]
    dtype_kw = kw.get('dtype')
    if func in (np.take, np.delete, np.repeat, np.roll, np.tile, np.insert):
        # secondary arguments are indices / counts: make concrete
        a = [conv(a[0])] + [(y.concrete() if type(y) is SA and not (func is np.insert and j == 1) else
                             (realise(y) if is_sym(y) and not (func is np.insert and j == 1) else y))
                            for j, y in enumerate(a[1:])]
        a = [y.a if type(y) is SA else (y.resolve().a if type(y) is GA else y) for y in a]
        kw = {k: (v.concrete() if type(v) is SA else v) for k, v in kw.items()}
    else:
        extra = []
        if func is np.append:
            vals = a[1] if len(a) > 1 else kw['values']
            if not is_arr(vals):
                sv = make_array(vals)
                dts.append(sv.dtype)
                if len(a) > 1:
                    a[1] = sv
                else:
                    kw = dict(kw, values=sv)
        if func in (np.concatenate, np.hstack, np.vstack, np.stack, np.column_stack, np.row_stack, np.dstack) and a:
            seq = a[0]
            if not is_arr(seq):
                a[0] = [make_array(y) if not is_arr(y) else y for y in seq]
        a = [conv(x) for x in a]
        kw = {k: conv(v) for k, v in kw.items() if k != 'dtype'}
    r = func(*a, **kw)
    dt = np.result_type(*dts) if dts and OBJ not in dts else (OBJ if dts else None)
    if dtype_kw is not None:
        dt = np.dtype(dtype_kw)

    def back(r):
        if isinstance(r, (list, tuple)) and type(r) is not SA:
            return type(r)(back(x) for x in r)
        if isinstance(r, np.ndarray):
            if r.dtype != OBJ:
                return wrap(r)
            if dt is None or dt == OBJ:
                return SA(r, OBJ)
            # elements may have mixed dtypes: normalise
            out = r
            f = r.reshape(-1)
            if any((is_sym(x) and x.np != dt) or (not is_sym(x) and getattr(x, 'dtype', None) != dt) for x in f):
                out = np.empty(r.shape, dtype=object)
                o = out.reshape(-1)
                for i, x in enumerate(f):
                    o[i] = cast_elem(x, dt)
            return SA(out, dt)
        return SA(np.empty(0, dtype=object), dt).el(r) if dt is not None and dt != OBJ else r
    return back(r)


def np_pad(array, pad_width, mode='constant', **kw):
    A = asSA(array)
    if not A.has_sym() and not any(has_sym(v) for v in kw.values()):
        return wrap(np.pad(A.native(), pad_width, mode, **kw))
    r = np.pad(A.a, pad_width, mode, **kw)
    return SA(obj_array([cast_elem(x, A.dtype) for x in r.reshape(-1)], r.shape), A.dtype)


def np_trace(a, *r, **k):
    return np_sum(run_struct(np.diagonal, (a,), {}))


def like(fn):
    def f(a, *args, dtype=None, **kw):
        A = asSA(a)
        kw.pop('order', None)
        kw.pop('subok', None)
        dt = np.dtype(dtype) if dtype is not None else (A.dtype if A.dtype != OBJ else NPF)
        shape = kw.pop('shape', None) or A.shape
        if fn == 'full':
            v = args[0] if args else kw['fill_value']
            out = np.empty(shape, dtype=object)
            out[...] = cast_elem(v, dt)
            return SA(out, dt)
        if fn == 'empty':
            return wrap(np.zeros(shape, dt))
        return wrap(getattr(np, fn)(shape, dt))
    return f


def np_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = np_where(where, src, dst)


def np_put(a, ind, v, mode='raise'):
    a[ind] = v


def np_place(a, mask, v):
    a[mask] = v


def np_putmask(a, mask, v):
    a[...] = np_where(mask, v, a)


def np_shape(a):
    return asSA(a).shape


def np_size(a, axis=None):
    if type(a) is GA:
        return a.size
    A = asSA(a)
    return A.size if axis is None else A.shape[axis]


def np_ndim(a):
    return asSA(a).ndim


def np_einsum(sub, *ops, **kw):
    A = [asSA(o) for o in ops]
    if not any(a.has_sym() for a in A):
        return wrap(np.einsum(sub, *[a.native() for a in A], **kw))
    sub = sub.replace(' ', '')
    if '->' not in sub or '.' in sub:
        raise Unsupported("einsum")
    ins, out = sub.split('->')
    ins = ins.split(',')
    dims = {}
    for s, a in zip(ins, A):
        for c, n in zip(s, a.shape):
            dims[c] = n
    rdt = np.result_type(*[a.dtype for a in A])
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oix in np.ndindex(*res.shape):
        env = dict(zip(out, oix))
        terms = []
        for six in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, six))
            t = None
            for s, a in zip(ins, A):
                v = a.a[tuple(env[c] for c in s)]
                t = v if t is None else el_op('mul', t, v, rdt)
            terms.append(t)
        r = terms[0]
        for t in terms[1:]:
            r = el_op('add', r, t, rdt)
        res[oix] = r
    return SA(res, rdt) if res.ndim else SA(res, rdt).el(res[()])


def np_tensordot(a, b, axes=2):
    A, B = asSA(a), asSA(b)
    if not A.has_sym() and not B.has_sym():
        return wrap(np.tensordot(A.native(), B.native(), axes))
    if axes == 1:
        i, j = A.a.ndim - 1, 0
    elif isinstance(axes, (tuple, list)) and len(axes) == 2:
        i, j = [x[0] if isinstance(x, (tuple, list)) and len(x) == 1 else x for x in axes]
    else:
        raise Unsupported("tensordot")
    if isinstance(i, int) and isinstance(j, int) and 1 <= A.a.ndim <= 2 and 1 <= B.a.ndim <= 2:
        return matmul(SA(np.moveaxis(A.a, i, -1), A.dtype), SA(np.moveaxis(B.a, j, 0), B.dtype))
    raise Unsupported("tensordot")


FUNCS = {
    np.sum: np_sum, np.nansum: np_sum, np.mean: np_mean, np.prod: np_prod, np.max: np_max, np.amax: np_max, np.min: np_min,
    np.amin: np_min, np.any: np_any, np.all: np_all, np.count_nonzero: np_count_nonzero, np.argmin: _arg('lt'),
    np.argmax: _arg('gt'), np.var: np_var, np.std: np_std, np.cumsum: np_cumsum, np.clip: np_clip, np.where: np_where,
    np.flatnonzero: np_flatnonzero, np.nonzero: np_nonzero, np.dot: np_dot, np.vdot: np_vdot, np.inner: np_inner,
    np.outer: np_outer, np.unique: np_unique, np.sort: np_sort, np.packbits: np_packbits, np.unpackbits: np_unpackbits,
    np.array_equal: np_array_equal, np.isclose: np_isclose,
    np.allclose: lambda *a, **k: np_all(np_isclose(*a, **k)), np.nan_to_num: np_nan_to_num, np.bincount: np_bincount,
    np.round: np_round, np.around: np_round, np.diff: np_diff, np.average: np_average, np.isin: np_isin, np.in1d: np_isin,
    np.pad: np_pad, np.trace: np_trace, np.zeros_like: like('zeros'), np.ones_like: like('ones'),
    np.empty_like: like('empty'), np.full_like: like('full'), np.copyto: np_copyto, np.put: np_put, np.place: np_place,
    np.putmask: np_putmask, np.shape: np_shape, np.size: np_size, np.ndim: np_ndim, np.einsum: np_einsum,
    np.tensordot: np_tensordot,
}
for f in STRUCT:
    FUNCS[f] = (lambda f: lambda *a, **k: run_struct(f, a, k))(f)

METHODS = {
    'sum': np_sum, 'mean': np_mean, 'prod': np_prod, 'max': np_max, 'min': np_min, 'any': np_any, 'all': np_all,
    'argmin': _arg('lt'), 'argmax': _arg('gt'), 'var': np_var, 'std': np_std, 'cumsum': np_cumsum, 'clip': np_clip,
    'nonzero': np_nonzero, 'dot': np_dot, 'round': np_round, 'repeat': FUNCS[np.repeat], 'take': FUNCS[np.take],
    'swapaxes': FUNCS[np.swapaxes], 'diagonal': FUNCS[np.diagonal],
}


def _sort_inplace(self, axis=-1, **k):
    self.a[...] = np_sort(self, axis).a


METHODS['sort'] = _sort_inplace


def array_function(func, args, kw):
    m = FUNCS.get(func)
    if m is not None:
        return m(*args, **kw)
    return generic(func, args, kw)


# -- generic fallback -----------------------------------------------------------------
def collect(x, acc):
    from . import models
    if is_sym(x):
        acc.append(x)
    elif type(x) is SA:
        for y in x.a.reshape(-1):
            if is_sym(y):
                acc.append(y)
            elif x.dtype == OBJ:
                collect(y, acc)
    elif type(x) is GA:
        acc.extend([v for v in x.vals if is_sym(v)])
        acc.extend([SB(g) for g in x.guards])
    elif isinstance(x, (models.SBytes, models.SArr)):
        acc.extend([y for y in x.items if is_sym(y)])
    elif isinstance(x, models.SymBits):
        acc.extend([y for y in x.items if is_sym(y)])
    elif type(x) in (list, tuple, set):
        for y in x:
            collect(y, acc)
    elif type(x) is dict:
        for k, y in x.items():
            collect(k, acc)
            collect(y, acc)
    return acc


def subst(x, f):
    """deep replace symbolic leaves by f(leaf), SA -> native arrays"""
    from . import models
    if is_sym(x):
        v = f(x)
        if x.np is not None and not isinstance(v, np.generic):
            return x.np.type(v)
        return v
    if type(x) is SA:
        a = np.empty(x.a.shape, dtype=object)
        if a.ndim == 0:
            a[()] = subst(x.a[()], f)
        else:
            fa = a.reshape(-1)
            for i, y in enumerate(x.a.reshape(-1)):
                fa[i] = subst(y, f)
        return SA(a, x.dtype).native()
    if type(x) is GA:
        vals = [subst(v, f) for v, g in zip(x.vals, x.guards) if f(SB(g))]
        return np.array(vals, dtype=x.dtype)
    if isinstance(x, models.SBytes):
        return bytes(int(subst(y, f)) for y in x.items)
    if isinstance(x, models.SArr):
        return x.native(lambda y: subst(y, f))
    if isinstance(x, models.SymBits):
        return x.native(lambda y: subst(y, f))
    if type(x) in (list, tuple, set):
        return type(x)(subst(y, f) for y in x)
    if type(x) is dict:
        return {subst(k, f): subst(y, f) for k, y in x.items()}
    return x


def generic_table(func, args, kw):
    """tabulate a pure function over finite symbolic leaves"""
    leaves = collect((args, kw), [])
    fin = [finite(x) for x in leaves]
    sel, idxs = join_selectors([s for s, _ in fin])
    results = []
    for ix in idxs:
        env = {id(x): v[j] for x, (_, v), j in zip(leaves, fin, ix)}
        # identical leaves may be distinct objects: key on id of leaf objects kept alive in `leaves`

        def look(y):
            for x, (s, v), j in zip(leaves, fin, ix):
                if x is y or (type(x) is type(y) and x.expr_id() == y.expr_id()):
                    return v[j]
            raise Unsupported("leaf lookup")
        with np.errstate(all='ignore'):
            results.append(func(*subst(args, look), **subst(kw, look)))
    return combine(sel, results)


def combine(sel, results):
    r0 = results[0]
    if isinstance(r0, np.ndarray):
        if not all(isinstance(r, np.ndarray) and r.shape == r0.shape and r.dtype == r0.dtype for r in results):
            raise Unsupported("shape varies")
        out = np.empty(r0.shape, dtype=object)
        for ix in np.ndindex(*r0.shape):
            out[ix] = wrap_table(sel, [r[ix] for r in results], r0.dtype)
        return SA(out, r0.dtype)
    if isinstance(r0, tuple):
        if not all(isinstance(r, tuple) and len(r) == len(r0) for r in results):
            raise Unsupported("structure varies")
        return tuple(combine(sel, [r[i] for r in results]) for i in range(len(r0)))
    if isinstance(r0, list):
        if not all(isinstance(r, list) and len(r) == len(r0) for r in results):
            raise Unsupported("structure varies")
        return [combine(sel, [r[i] for r in results]) for i in range(len(r0))]
    if all(isinstance(r, (bool, np.bool_, int, float, np.number)) for r in results):
        npd = np.asarray(r0).dtype if isinstance(r0, np.generic) else None
        if any(isinstance(r, (float, np.floating)) for r in results) and npd is not None:
            npd = NPF
        return wrap_table(sel, list(results), npd)
    if all(type(r) is type(r0) and r == r0 for r in results):
        return r0
    raise Unsupported("cannot combine results")


def generic(func, args, kw):
    leaves = collect((args, kw), [])
    if not leaves:
        with np.errstate(all='ignore'):
            return wrap(func(*subst(args, None), **subst(kw, None)))
    try:
        if all(type(x) is not SR for x in leaves):
            return generic_table(func, args, kw)
    except Unsupported:
        pass
    with np.errstate(all='ignore'):
        return wrap(func(*subst(args, realise), **subst(kw, realise)))
