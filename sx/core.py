"""Symbolic values and path exploration.

Values are proxies executed by CPython itself:
  SB - symbolic bool (z3 Bool)
  SI - symbolic Python int (z3 bit-vector with interval-tracked width: exact, never wraps)
  SF - symbolic float with a finite table of exact float values (guarded alternatives)
  SR - symbolic real (z3 Real), used for unconstrained floats (floats-as-reals, stated)

Truth tests fork the path; the engine explores paths by deterministic re-execution.
"""
import math
import operator
import time
import itertools
from fractions import Fraction
import numpy as np
import z3


class Unsupported(BaseException):
    """engine cannot represent this operation symbolically (never a verdict)"""


class PathAbort(BaseException):
    """path cut: infeasible assumption"""


class Budget(BaseException):
    """exploration budget exhausted"""


class Nondeterminism(BaseException):
    pass


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def frac(v):
    f = Fraction(float(v))
    return z3.RatVal(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


class Engine:
    def __init__(self, query_timeout_ms=60000):
        self.query_timeout = query_timeout_ms
        self.solver = None
        self.stack = []
        self.depth = 0
        self.prefix = []
        self.log = []
        self.pos = 0
        self.pending = []
        self.model = None
        self.q_count = 0
        self.q_time = 0.0
        self.q_sat = 0
        self.q_unsat = 0
        self.q_unknown = 0
        self.decisions = 0
        self.realised = 0
        self.max_paths = 20000
        self.deadline = None
        self.dcache = {}
        self.tokens = {}
        self.token_by_id = {}
        self.symdicts = {}
        self.idhash = False
        self.fresh = 0
        self.keep = []
        self.inpc = 0
        self.reals = False
        self.vcache = {}
        self.scache = {}
        self.path_deadline = None

    # -- solver --------------------------------------------------------------
    def new_solver(self):
        s = z3.Solver() if self.reals else z3.SolverFor('QF_FD')
        s.set("timeout", self.query_timeout)
        return s

    def need_reals(self):
        """first real-sorted term: move from the incremental bit-blasting solver to the general one"""
        if not self.reals:
            self.reals = True
            if self.solver is not None:
                self.solver = self.new_solver()
                self.defined = []
                for e in self.stack:
                    self._push(e)

    def _push(self, expr):
        self.solver.push()
        self.solver.add(expr)
        new = []
        ds = defs_of(expr)
        if ds:
            have = set().union(*self.defined)
            new = [d for d in ds if d not in have]
            for d in new:
                self.solver.add(DEFS[d][2])
        self.defined.append(frozenset(new))

    def _pop(self, n):
        self.solver.pop(n)
        del self.stack[len(self.stack) - n:]
        del self.defined[len(self.defined) - n:]

    def extra_defs(self, *extra):
        """definitions used by the extra formulas and not asserted on the stack"""
        ds = set()
        for x in extra:
            ds |= defs_of(x)
        if not ds:
            return []
        have = set().union(*self.defined)
        return [DEFS[d][2] for d in sorted(ds) if d not in have]

    def begin(self, prefix):
        if self.solver is None:
            self.solver = self.new_solver()
            self.stack = []
            self.defined = []
        self.depth = 0
        self.prefix = prefix
        self.log = []
        self.pos = 0
        self.model = None
        self.dcache = {}
        self.tokens = {}
        self.token_by_id = {}
        self.symdicts = {}
        self.idhash = False
        self.fresh = 0
        self.keep = []

    def add(self, expr):
        """assert expr on the current path"""
        if z3.is_true(expr):
            return
        i = self.depth
        if i < len(self.stack) and self.stack[i].eq(expr):
            self.depth += 1
        else:
            if i < len(self.stack):
                self._pop(len(self.stack) - i)
            self._push(expr)
            self.stack.append(expr)
            self.depth += 1
        if self.model is not None and not z3.is_true(mev(self.model, expr)):
            self.model = None

    def pc(self):
        return self.stack[:self.depth]

    def _sync(self):
        if self.depth < len(self.stack):
            self._pop(len(self.stack) - self.depth)

    def check(self, *extra):
        self._sync()
        if self.deadline and time.time() > self.deadline:
            raise Budget("deadline")
        t = time.time()
        xd = self.extra_defs(*extra)
        if xd:
            self.solver.push()
            self.solver.add(*xd)
        r = self.solver.check(*extra)
        if xd:
            if r == z3.sat:
                self._last_model = self.solver.model()
            self.solver.pop()
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.query_timeout)
            s.add(*self.stack)
            s.add(*extra)
            s.add(*all_defs(*self.stack, *extra))
            r = s.check()
            if r == z3.sat:
                self._last_model = s.model()
        elif r == z3.sat and not xd:
            self._last_model = self.solver.model()
        self.q_time += time.time() - t
        self.q_count += 1
        if r == z3.sat:
            self.q_sat += 1
            return True, self._last_model
        if r == z3.unsat:
            self.q_unsat += 1
            return False, None
        self.q_unknown += 1
        return None, None

    def vars_of(self, e):
        """names of the free constants of an expression (cached per ast)"""
        k = e.get_id()
        hit = self.vcache.get(k)
        if hit is not None:
            return hit[0]
        out = set()
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            h = self.vcache.get(i)
            if h is not None:
                out |= h[0]
                continue
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    d = DEFS.get(nm)
                    if d is not None:
                        todo.append(d[1])
                    else:
                        out.add(nm)
            else:
                todo.extend(x.children())
        r = frozenset(out)
        self.vcache[k] = (r, e)
        return r

    def check_sliced(self, cond, *more):
        """feasibility of pc & cond, using only the conjuncts connected to cond (pc itself is satisfiable)"""
        if self.deadline and time.time() > self.deadline:
            raise Budget("deadline")
        want = set(self.vars_of(cond))
        for m in more:
            want |= self.vars_of(m)
        pcs = [(p, self.vars_of(p)) for p in self.stack[:self.depth]]
        use = []
        changed = True
        while changed and pcs:
            changed = False
            rest = []
            for p, v in pcs:
                if v & want:
                    use.append(p)
                    if not v <= want:
                        want |= v
                        changed = True
                else:
                    rest.append((p, v))
            pcs = rest
        if len(use) > 0.7 * self.depth and self.depth > 8:
            return self.check(cond, *more)[0]
        key = (cond.get_id(), tuple(m.get_id() for m in more), frozenset(u.get_id() for u in use))
        hit = self.scache.get(key)
        if hit is not None:
            return hit[0]
        t = time.time()
        s = self.new_solver()
        s.add(*use)
        s.add(cond, *more)
        ds = all_defs(cond, *more, *use)
        s.add(*ds)
        r = s.check()
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.query_timeout)
            s.add(*use)
            s.add(cond, *more)
            s.add(*ds)
            r = s.check()
        self.q_time += time.time() - t
        self.q_count += 1
        if r == z3.sat:
            self.q_sat += 1
        elif r == z3.unsat:
            self.q_unsat += 1
        else:
            self.q_unknown += 1
        out = True if r == z3.sat else False if r == z3.unsat else None
        self.scache[key] = (out, cond, more, use)
        return out

    def get_model(self):
        if self.model is None:
            r, m = self.check()
            if r is False:
                raise PathAbort("infeasible")
            if r is None:
                raise Unsupported("solver unknown on path condition")
            self.model = m
        return self.model

    # -- decisions -----------------------------------------------------------
    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        base = cond
        if z3.is_not(cond):
            neg, base = True, cond.arg(0)
        key = base.get_id()
        hit = self.dcache.get(key)
        if hit is not None:
            return hit[0] ^ neg
        val = self._decide(base)
        self.dcache[key] = (val, base)
        return val ^ neg

    def _decide(self, cond):
        self.decisions += 1
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind not in ('f', 'b'):
                raise Nondeterminism("decision kind mismatch")
            self.pos += 1
            self.log.append((kind, val))
            if kind == 'b':
                self.add(cond if val else z3.Not(cond))
            return val
        m = self.get_model()
        side = z3.is_true(mev(m, cond))
        other = z3.Not(cond) if side else cond
        r = self.check_sliced(other)
        self.pos += 1
        if r is False:
            self.log.append(('f', side))
            return side
        # both feasible (or unknown: explore it, infeasible paths are harmless)
        self.pending.append(self.log[:] + [('b', not side)])
        self.log.append(('b', side))
        self.model = m
        self.add(cond if side else z3.Not(cond))
        self.model = m
        return side

    def possible(self, cond):
        """can cond hold on this path? (no fork; logged so that re-execution sees the same answer)"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = ('p', cond.get_id())
        hit = self.dcache.get(key)
        if hit is not None:
            return hit[0]
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'p':
                raise Nondeterminism("decision kind mismatch")
        else:
            m = self.get_model()
            val = z3.is_true(mev(m, cond)) or self.check_sliced(cond) is not False
        self.pos += 1
        self.log.append(('p', val))
        self.dcache[key] = (val, cond)
        return val

    def choose(self, n, guards=None):
        """n-ary fork; guards: list of z3 Bool (exclusive) or None for free choice. Returns index"""
        self.decisions += 1
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'v':
                raise Nondeterminism("decision kind mismatch")
            self.pos += 1
            self.log.append((kind, val))
            if guards is not None:
                self.add(guards[val])
            return val
        if guards is None:
            feas = list(range(n))
        else:
            feas = []
            m = self.get_model()
            for i in range(n):
                g = guards[i]
                if z3.is_false(g):
                    continue
                if z3.is_true(mev(m, g)):
                    feas.append(i)
                else:
                    r = self.check_sliced(g)
                    if r is not False:
                        feas.append(i)
        if not feas:
            raise PathAbort("no feasible alternative")
        self.pos += 1
        for v in reversed(feas[1:]):
            self.pending.append(self.log[:] + [('v', v)])
        self.log.append(('v', feas[0]))
        if guards is not None:
            self.add(guards[feas[0]])
        return feas[0]

    def realise_expr(self, expr, limit=600):
        """fork over all feasible values of a bit-vector expression; returns python int (unsigned)"""
        self.decisions += 1
        self.realised += 1
        expr = z3.simplify(expr)
        if z3.is_bv_value(expr):
            return expr.as_long()
        key = ('r', expr.get_id())
        hit = self.dcache.get(key)
        if hit is not None:
            return hit[0]
        w = expr.size()
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'r':
                raise Nondeterminism("decision kind mismatch")
            self.pos += 1
            self.log.append((kind, val))
            self.add(expr == z3.BitVecVal(val, w))
            self.dcache[key] = (val, expr)
            return val
        vals = []
        m = self.get_model()
        block = []
        while True:
            v = mev(m, expr).as_long()
            vals.append(v)
            block.append(expr != z3.BitVecVal(v, w))
            if len(vals) > limit:
                raise Unsupported("too many values to realise")
            r, m = self.check(*block)
            if r is False:
                break
            if r is None:
                raise Unsupported("solver unknown while realising")
        vals.sort()
        self.pos += 1
        for v in reversed(vals[1:]):
            self.pending.append(self.log[:] + [('r', v)])
        self.log.append(('r', vals[0]))
        self.add(expr == z3.BitVecVal(vals[0], w))
        self.dcache[key] = (vals[0], expr)
        return vals[0]

    def token(self, sym):
        key = (type(sym), sym.expr_id())
        t = self.token_by_id.get(key)
        if t is None:
            t = chr(0xF0000 + len(self.tokens))
            self.tokens[t] = sym
            self.token_by_id[key] = t
        return t


E = Engine()


# ---------------------------------------------------------------------------
def is_sym(x):
    return type(x) in SYM_TYPES


def _needw(lo, hi):
    """(width, unsigned?) for the interval"""
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length() if lo < 0 else 0, hi.bit_length() if hi > 0 else 0) + 1


class Sym:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise Unsupported("pickling symbolic value")

    # operators, dispatched on the numeric tower
    def __add__(self, o): return binop('add', self, o)
    def __radd__(self, o): return binop('add', o, self)
    def __sub__(self, o): return binop('sub', self, o)
    def __rsub__(self, o): return binop('sub', o, self)
    def __mul__(self, o): return binop('mul', self, o)
    def __rmul__(self, o): return binop('mul', o, self)
    def __truediv__(self, o): return binop('truediv', self, o)
    def __rtruediv__(self, o): return binop('truediv', o, self)
    def __floordiv__(self, o): return binop('floordiv', self, o)
    def __rfloordiv__(self, o): return binop('floordiv', o, self)
    def __mod__(self, o): return binop('mod', self, o)
    def __rmod__(self, o): return binop('mod', o, self)
    def __divmod__(self, o): return binop('floordiv', self, o), binop('mod', self, o)
    def __pow__(self, o, m=None): return binop('pow', self, o)
    def __rpow__(self, o): return binop('pow', o, self)
    def __and__(self, o): return binop('and', self, o)
    def __rand__(self, o): return binop('and', o, self)
    def __or__(self, o): return binop('or', self, o)
    def __ror__(self, o): return binop('or', o, self)
    def __xor__(self, o): return binop('xor', self, o)
    def __rxor__(self, o): return binop('xor', o, self)
    def __lshift__(self, o): return binop('lshift', self, o)
    def __rlshift__(self, o): return binop('lshift', o, self)
    def __rshift__(self, o): return binop('rshift', self, o)
    def __rrshift__(self, o): return binop('rshift', o, self)
    def __lt__(self, o): return cmpop('lt', self, o)
    def __le__(self, o): return cmpop('le', self, o)
    def __gt__(self, o): return cmpop('gt', self, o)
    def __ge__(self, o): return cmpop('ge', self, o)
    def __eq__(self, o): return cmpop('eq', self, o)
    def __ne__(self, o): return cmpop('ne', self, o)
    def __neg__(self): return unop('neg', self)
    def __pos__(self): return unop('pos', self)
    def __abs__(self): return unop('abs', self)
    def __invert__(self): return unop('invert', self)

    # numpy scalar API
    @property
    def dtype(self):
        return self.np if self.np is not None else (_ for _ in ()).throw(AttributeError("dtype"))

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    def item(self):
        return untag(self)

    def tolist(self):
        return untag(self)

    def copy(self):
        return self

    def astype(self, dt):
        from . import arrays
        return arrays.cast_elem(self, np.dtype(dt))

    def all(self, *a, **k):
        return truth(self)

    def any(self, *a, **k):
        return truth(self)

    def __hash__(self):
        if E.idhash:
            return id(self) >> 4
        return hash(realise(self))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = realise(self)
        return getattr(v, name)

    def __getitem__(self, k):
        # numpy scalar newaxis indexing
        if k is None or k == () or k is Ellipsis or (isinstance(k, tuple) and all(x is None for x in k)):
            if self.np is not None:
                from . import arrays
                return arrays.SA_from_scalar(self)[k]
        raise TypeError("symbolic scalar is not subscriptable")


class SB(Sym):
    __slots__ = ('e', 'np', 'pe')

    def __init__(self, e, np_=None):
        self.e = e
        self.np = np_

    @property
    def __class__(self):
        return bool if self.np is None else np.bool_

    def expr_id(self):
        return self.e.get_id()

    def __bool__(self):
        return E.decide(self.e)

    def __index__(self):
        return int(E.decide(self.e))

    __int__ = __index__

    def __float__(self):
        return float(E.decide(self.e))

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def as_int(self):
        return SI(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1, b=self.e)


class SI(Sym):
    __slots__ = ('_e', 'lo', 'hi', '_b', 'np', 'lin')

    @property
    def b(self):
        if self._b is None and self.lin is not None and len(self.lin) == 1:
            self._b = xor_expr(self.lin[0])
        return self._b

    @property
    def e(self):
        if self._e is None:
            self._e = lin_bv(self.lin)
        return self._e

    def __init__(self, e, lo, hi, b=None, np_=None, lin=None):
        self.lin = lin      # per-bit exclusive-or normal form (LSB first) when known, see xset
        self._e = e
        self.lo = lo
        self.hi = hi
        self._b = b
        self.np = np_

    @property
    def __class__(self):
        return int if self.np is None else self.np.type

    def expr_id(self):
        return self.e.get_id()

    def __bool__(self):
        return bool(truth(self))

    def __index__(self):
        return realise(self)

    __int__ = __index__

    def __float__(self):
        return float(realise(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __str__(self):
        return E.token(self)

    def __repr__(self):
        return E.token(self)

    def __format__(self, spec):
        if spec in ('', 'd'):
            return E.token(self)
        return format(realise(self), spec)

    def bit_length(self):
        return realise(self).bit_length()

    def bit_count(self):
        return sum_syms([self_bit(self, i) for i in range(self.hi.bit_length())]) if self.lo >= 0 else \
            realise(self).bit_count()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import models
        return models.int_to_bytes(self, length, byteorder, signed)

    def conjugate(self):
        return self

    @property
    def is_integer(self):
        return lambda: True


class Selector:
    """a finite case split: exclusive and exhaustive guards"""
    __slots__ = ('guards', 'key', 'parts')

    def __init__(self, guards, key, parts=None):
        self.guards = guards
        self.key = key
        self.parts = parts


class SF(Sym):
    """finite-table float: value vals[i] under sel.guards[i]"""
    __slots__ = ('sel', 'vals', 'np')

    def __init__(self, sel, vals, np_=None):
        self.sel = sel
        self.vals = vals
        self.np = np_

    @property
    def __class__(self):
        return float if self.np is None else self.np.type

    def expr_id(self):
        return (self.sel.key, tuple(self.vals))

    def __bool__(self):
        return bool(truth(self))

    def __float__(self):
        return realise(self)

    def __int__(self):
        return int(realise(self))

    def __round__(self, n=None):
        return map_sf(lambda v: round(v, n) if n is not None else round(v), self)

    def __trunc__(self):
        return map_sf(math.trunc, self)

    def __floor__(self):
        return map_sf(math.floor, self)

    def __ceil__(self):
        return map_sf(math.ceil, self)

    def __str__(self):
        return E.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return E.token(self)

    def is_integer(self):
        return map_sf(lambda v: float(v).is_integer(), self)


class SR(Sym):
    __slots__ = ('e', 'np', 'nn', '_q')

    def __init__(self, e, np_=None, nn=False, q=None):
        if not E.reals:
            E.need_reals()
        self.e = e
        self.np = np_
        self.nn = nn      # known non-negative
        self._q = q       # (integer, power of two) whose quotient is the value of the double, or a function giving that

    @property
    def q(self):
        if callable(self._q):
            self._q = self._q()
        return self._q

    @property
    def __class__(self):
        return float if self.np is None else self.np.type

    def expr_id(self):
        return self.e.get_id()

    def __bool__(self):
        return bool(truth(self))

    def __float__(self):
        raise Unsupported("realising a real")

    def __int__(self):
        raise Unsupported("realising a real")

    def __round__(self, n=None):
        return real_round('rint', self, n)

    def __hash__(self):
        raise Unsupported("hash of a real")

    def __str__(self):
        return E.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return E.token(self)


SYM_TYPES = {SB, SI, SF, SR}
NPF = np.dtype(np.float64)
NPB = np.dtype(np.bool_)
NPI = np.dtype(np.int64)


def untag(x):
    t = type(x)
    if t is SB:
        return SB(x.e)
    if t is SI:
        return SI(x._e, x.lo, x.hi, x._b, None, x.lin)
    if t is SF:
        return SF(x.sel, x.vals)
    if t is SR:
        return SR(x.e, None, x.nn, x._q)
    if isinstance(x, np.generic):
        return x.item()
    return x


def tag(x, dt):
    """attach numpy scalar type"""
    t = type(x)
    if t is SB:
        return SB(x.e, dt) if dt == NPB else x
    if t is SI:
        return SI(x._e, x.lo, x.hi, x._b, dt, x.lin)
    if t is SF:
        return SF(x.sel, x.vals, dt)
    if t is SR:
        return SR(x.e, dt, x.nn, x._q)
    return x


# -- constructors -----------------------------------------------------------
def mk_bool(e, np_=None):
    if z3.is_true(e):
        return np.bool_(True) if np_ is not None else True
    if z3.is_false(e):
        return np.bool_(False) if np_ is not None else False
    return SB(e, np_)


def norm_si(e, lo, hi, np_=None, b=None):
    """e: signed-interpretable BV of any width holding a value in [lo,hi]"""
    if lo == hi:
        return lo if np_ is None else np_.type(lo)
    w = _needw(lo, hi)
    if e.size() > w:
        e = z3.Extract(w - 1, 0, e)
    elif e.size() < w:
        raise AssertionError("width")
    return SI(e, lo, hi, b, np_)


def ext(x, w):
    """extend SI/int to w-bit signed-compatible BV"""
    if isinstance(x, (int, np.integer)) and not is_sym(x):
        return z3.BitVecVal(int(x), w)
    d = w - x.e.size()
    if d == 0:
        return x.e
    if d < 0:
        return z3.Extract(w - 1, 0, x.e)
    return z3.ZeroExt(d, x.e) if x.lo >= 0 else z3.SignExt(d, x.e)


def rng(x):
    if type(x) is SI:
        return x.lo, x.hi
    return int(x), int(x)


# -- exclusive-or normal forms: a Boolean that is a xor of atoms is kept as (frozenset of atom ids, constant), so that
#    checksum arithmetic written differently in two places meets in one canonical expression
# definitional variables for exclusive-or sums: name -> (var, sum, var == sum). Expressions mention only the variable, so
# equal sums are the same literal; the definition is asserted wherever the variable is used.
DEFS = {}
DCACHE = {}
XPAND = {}


def defs_of(e):
    """names of the definitional variables an expression depends on (transitively)"""
    if not DEFS:
        return frozenset()
    k = e.get_id()
    hit = DCACHE.get(k)
    if hit is not None:
        return hit[0]
    out = set()
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        h = DCACHE.get(i)
        if h is not None:
            out |= h[0]
            continue
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                d = DEFS.get(nm)
                if d is not None and nm not in out:
                    out.add(nm)
                    todo.append(d[1])
        else:
            todo.extend(x.children())
    r = frozenset(out)
    DCACHE[k] = (r, e)
    return r


def all_defs(*es):
    ds = set()
    for e in es:
        ds |= defs_of(e)
    return [DEFS[d][2] for d in sorted(ds)]


def expand(e):
    """the expression with definitional variables replaced by their sums"""
    ds = defs_of(e)
    if not ds:
        return e
    k = e.get_id()
    h = XPAND.get(k)
    if h is None:
        x = e
        while True:
            ds = defs_of(x)
            if not ds:
                break
            x = z3.substitute(x, *[(DEFS[d][0], DEFS[d][1]) for d in ds])
        h = XPAND[k] = (x, e)
    return h[0]


def mev(m, e):
    return m.eval(expand(e), model_completion=True)


EQCACHE = {}
ATOM = {}
XCACHE = {}
XEXPR = {}
ZERO = (frozenset(), 0)
ONE = (frozenset(), 1)


def xset(e):
    if z3.is_true(e):
        return ONE
    if z3.is_false(e):
        return ZERO
    neg = 0
    while z3.is_not(e):
        e = e.arg(0)
        neg ^= 1
    k = e.get_id()
    h = XCACHE.get(k)
    if h is None:
        ATOM[k] = e
        s = frozenset((k,))
        XCACHE[k] = (s, e)
        XEXPR[s] = e
    else:
        s = h[0]
    return (s, neg)


def xor_expr(x):
    s, c = x
    if not s:
        return TRUE if c else FALSE
    e = XEXPR.get(s)
    if e is None:
        ks = sorted(s)
        e = ATOM[ks[0]]
        for k in ks[1:]:
            e = z3.Xor(e, ATOM[k])
        if len(ks) > 2:
            name = '^%d' % len(DEFS)
            d = z3.Bool(name)
            DEFS[name] = (d, e, d == e)
            e = d
        XEXPR[s] = e
        XCACHE[e.get_id()] = (s, e)
    return z3.Not(e) if c else e


def xor2(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def bv_lin(v):
    return tuple(xset(z3.simplify(z3.Extract(i, i, v) == z3.BitVecVal(1, 1))) for i in range(v.size()))


def const_lin(v):
    return tuple((ONE if (v >> i) & 1 else ZERO) for i in range(v.bit_length()))


def lin_of(x):
    if type(x) is SI:
        return x.lin
    v = int(x)
    return const_lin(v) if v >= 0 else None


def lin_int(lin, lo=0, hi=None):
    """int value (SI or python int) of a linear form"""
    lin = tuple(lin)
    while lin and lin[-1] == ZERO:
        lin = lin[:-1]
    if all(not s for s, _ in lin):
        return sum(c << i for i, (_, c) in enumerate(lin))
    w = len(lin)
    m = sum((1 << i) for i, x in enumerate(lin) if x != ZERO)
    if w == 1:
        return SI(None, 0, 1, None, None, lin)
    lo = max(lo, sum((1 << i) for i, x in enumerate(lin) if x == ONE))
    return SI(None, lo, m if hi is None else min(hi, m), None, None, lin)


BVCACHE = {}


def lin_bv(lin):
    h = BVCACHE.get(lin)
    if h is not None:
        return h
    parts = []
    for x in reversed(lin):
        if not x[0]:
            parts.append(z3.BitVecVal(x[1], 1))
        else:
            b = xor_expr(x)
            parts.append(z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
    r = BVCACHE[lin] = z3.simplify(z3.Concat(parts)) if len(parts) > 1 else parts[0]
    return r


def lin_op(op, a, b):
    """linear form of the result, or None"""
    A, B = lin_of(a), lin_of(b)
    if A is None or B is None:
        return None
    n = max(len(A), len(B))
    pa, pb = A + (ZERO,) * (n - len(A)), B + (ZERO,) * (n - len(B))
    if op == 'xor':
        return tuple(xor2(x, y) for x, y in zip(pa, pb))
    if op == 'and':
        out = []
        for x, y in zip(pa, pb):
            if x == ZERO or y == ZERO:
                out.append(ZERO)
            elif x == ONE:
                out.append(y)
            elif y == ONE or x == y:
                out.append(x)
            else:
                return None
        return tuple(out)
    if op in ('or', 'add'):
        out = []
        for x, y in zip(pa, pb):
            if x == ZERO:
                out.append(y)
            elif y == ZERO:
                out.append(x)
            else:
                return None
        return tuple(out)
    if op == 'mul':
        for x, y, Y in ((a, b, B), (b, a, A)):
            if not is_sym(x) and is_sym(y):
                c = int(x)
                if c == 0:
                    return ()
                if c & (c - 1) == 0:
                    return (ZERO,) * (c.bit_length() - 1) + Y
                if len(Y) == 1 and c > 0:
                    return tuple(Y[0] if (c >> i) & 1 else ZERO for i in range(c.bit_length()))
    return None


def new_int(name, lo, hi):
    w = _needw(lo, hi)
    if lo >= 0:
        bs = [z3.Bool('%s.%d' % (name, i)) for i in range(w)]
        lin = tuple(xset(b) for b in bs)
        v = lin_bv(lin)
        s = SI(v, lo, hi, bs[0] if w == 1 else None, None, lin)
    else:
        v = z3.BitVec(name, w)
        s = SI(v, lo, hi)
    cons = []
    if lo >= 0:
        if hi != (1 << w) - 1:
            cons.append(z3.ULE(v, z3.BitVecVal(hi, w)))
        if lo > 0:
            cons.append(z3.UGE(v, z3.BitVecVal(lo, w)))
    else:
        if hi != (1 << (w - 1)) - 1:
            cons.append(v <= z3.BitVecVal(hi, w))
        if lo != -(1 << (w - 1)):
            cons.append(v >= z3.BitVecVal(lo, w))
    for c in cons:
        E.add(c)
    return s


def self_bit(x, i):
    """bit i of SI (lo>=0 or two's complement) as int-valued 0/1"""
    w = x.e.size()
    if i >= w:
        if x.lo >= 0:
            return 0
        i = w - 1
    if x.lin is not None:
        return lin_int((x.lin[i],)) if i < len(x.lin) else 0
    if x.b is not None and i == 0 and x.hi == 1:
        return x if x.np is None else untag(x)
    e = z3.simplify(z3.Extract(i, i, x.e))
    if z3.is_bv_value(e):
        return e.as_long()
    return SI(e, 0, 1)


def as_bool_expr(x):
    """z3 Bool for the truth of x"""
    t = type(x)
    if t is SB:
        return x.e
    if t is SI:
        if x.b is not None:
            return x.b
        return x.e != z3.BitVecVal(0, x.e.size())
    if t is SF:
        return z3.Or([g for g, v in zip(x.sel.guards, x.vals) if v]) if any(x.vals) else FALSE
    if t is SR:
        return x.e != 0
    return z3.BoolVal(bool(x))


def truth(x):
    if is_sym(x):
        return mk_bool(as_bool_expr(x))
    return bool(x)


def si_selector(x):
    if x.hi - x.lo > 300:
        raise Unsupported("range too large for table")
    key = ('si', x.e.get_id())
    E.keep.append(x.e)
    w = x.e.size()
    return Selector([x.e == z3.BitVecVal(v, w) for v in range(x.lo, x.hi + 1)], key), list(range(x.lo, x.hi + 1))


def sb_selector(x):
    E.keep.append(x.e)
    return Selector([z3.Not(x.e), x.e], ('sb', x.e.get_id())), [False, True]


FAMBOOL = {}     # conditions that are functions of a family: they stay columns over its case split


def finite(x):
    """(selector, values) for any finite symbolic value"""
    t = type(x)
    if t is SF:
        return x.sel, x.vals
    if t is SI:
        return si_selector(x)
    if t is SB:
        h = FAMBOOL.get(x.e.get_id())
        if h is not None:
            return h[0], h[1]
        if z3.is_not(x.e):
            h = FAMBOOL.get(x.e.arg(0).get_id())
            if h is not None:
                return h[0], [not v for v in h[1]]
        return sb_selector(x)
    raise Unsupported("not finite")


TABLE_CAP = 600


def join_selectors(sels):
    """product of distinct selectors -> (Selector, list of index tuples aligned with given sels)"""
    uniq = {}
    for s in sels:
        uniq.setdefault(s.key, s)
    if len(uniq) == 1:
        s = sels[0]
        n = len(s.guards)
        return s, [tuple(i for _ in sels) for i in range(n)]
    base = {}
    for s in sels:
        for p in s.parts or (s,):
            base.setdefault(p.key, p)
    keys = list(base)
    total = 1
    for k in keys:
        total *= len(base[k].guards)
    if total > TABLE_CAP:
        raise Unsupported("table too large (%d)" % total)
    pos = {k: i for i, k in enumerate(keys)}
    full = next((s for s in uniq.values() if s.parts and [p.key for p in s.parts] == keys), None)
    if full is None:
        guards = [z3.And([base[k].guards[c] for k, c in zip(keys, combo)])
                  for combo in itertools.product(*[range(len(base[k].guards)) for k in keys])]
        full = Selector(guards, ('fam' if all(k[0] == 'fam' for k in keys) else 'prod',) + tuple(keys), [base[k] for k in keys])
    plans = []
    for s in sels:
        plans.append([(pos[p.key], len(p.guards)) for p in s.parts or (s,)])
    idxs = []
    for combo in itertools.product(*[range(len(base[k].guards)) for k in keys]):
        row = []
        for plan in plans:
            i = 0
            for j, n in plan:
                i = i * n + combo[j]
            row.append(i)
        idxs.append(tuple(row))
    return full, idxs


def compress(sel, vals):
    """merge equal values when that shrinks the table substantially"""
    groups = {}
    for g, v in zip(sel.guards, vals):
        k = ('nan',) if isinstance(v, float) and v != v else (type(v).__name__, float(v).hex() if isinstance(
            v, (float, np.floating)) else v)
        groups.setdefault(k, [v, []])[1].append(g)
    if len(groups) == 1:
        return None, [vals[0]]
    if sel.key[0] != 'fam' and len(groups) < len(vals) and len(sel.guards) > 8 and len(groups) <= len(vals) // 2:
        gs = [z3.Or(x[1]) if len(x[1]) > 1 else x[1][0] for x in groups.values()]
        for g in gs:
            E.keep.append(g)
        ns = Selector(gs, ('cmp',) + tuple(g.get_id() for g in gs))
        return ns, [x[0] for x in groups.values()]
    return sel, vals


def wrap_table(sel, vals, np_=None):
    """table of python values -> SB / SI / SF / constant"""
    if all(isinstance(v, (bool, np.bool_)) for v in vals):
        gs = [g for g, v in zip(sel.guards, vals) if v]
        if not gs:
            return mk_bool(FALSE, np_)
        if len(gs) == len(vals):
            return mk_bool(TRUE, np_)
        e = z3.Or(gs) if len(gs) > 1 else gs[0]
        if sel.key[0] == 'fam':
            e2 = z3.simplify(e)
            FAMBOOL[e.get_id()] = FAMBOOL[e2.get_id()] = (sel, [bool(v) for v in vals], e, e2)
            if z3.is_not(e2):
                FAMBOOL[e2.arg(0).get_id()] = (sel, [not v for v in vals], e, e2)
        return SB(e, np_)
    if all(isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)) for v in vals):
        lo, hi = int(min(vals)), int(max(vals))
        if lo == hi:
            return lo if np_ is None else np_.type(lo)
        w = _needw(lo, hi)
        e = z3.BitVecVal(int(vals[-1]), w)
        for g, v in zip(reversed(sel.guards[:-1]), reversed(vals[:-1])):
            e = z3.If(g, z3.BitVecVal(int(v), w), e)
        return SI(e, lo, hi, None, np_)
    vals = [float(v) for v in vals]
    sel, vals = compress(sel, vals)
    if sel is None:
        return vals[0] if np_ is None else np_.type(vals[0])
    return SF(sel, vals, np_)


def table_apply(fn, *args):
    """apply a pure concrete function over all combinations of finite symbolic args"""
    sy = [(i, finite(a)) for i, a in enumerate(args) if is_sym(a)]
    if not sy:
        return fn(*args)
    sel, idxs = join_selectors([s for _, (s, _) in sy])
    out = []
    for ix in idxs:
        aa = list(args)
        for (i, (_, vals)), j in zip(sy, ix):
            aa[i] = vals[j]
        out.append(fn(*aa))
    np_ = None
    for a in args:
        if isinstance(a, np.generic) or (is_sym(a) and a.np is not None):
            np_ = True
    if np_ and all(isinstance(v, (bool, np.bool_)) for v in out):
        return wrap_table(sel, out, NPB)
    if np_ and all(isinstance(v, (int, np.integer)) for v in out):
        return wrap_table(sel, out, NPI)
    return wrap_table(sel, out, NPF if np_ else None)


def table_pred(fn, a, b):
    """boolean function of two finite operands: a product table, or per-row implications when that is large"""
    if not (is_sym(a) and is_sym(b)):
        return table_apply(fn, a, b)
    (sa, va), (sb, vb) = finite(a), finite(b)
    n = len(va) * len(vb)
    try:
        return table_apply(fn, a, b)
    except Unsupported:
        pass
    if n > 40000:
        raise Unsupported("table too large (%d)" % n)
    out = []
    for g, x in zip(sa.guards, va):
        ok = [h for h, y in zip(sb.guards, vb) if fn(x, y)]
        if not ok:
            out.append(z3.Not(g))
        elif len(ok) < len(vb):
            out.append(z3.Implies(g, z3.Or(ok)))
    return mk_bool(z3.And(out) if out else TRUE)


def map_sf(fn, x):
    return table_apply(fn, x)


# -- conversions ------------------------------------------------------------
def to_real(x):
    """z3 Real expression (finite values only)"""
    E.need_reals()
    t = type(x)
    if t is SR:
        return x.e
    if t is SB:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if t is SI:
        if x.b is not None:
            return z3.If(x.b, z3.RealVal(1), z3.RealVal(0))
        if x.hi - x.lo <= 16:
            w = x.e.size()
            e = z3.RealVal(x.hi)
            for v in range(x.hi - 1, x.lo - 1, -1):
                e = z3.If(x.e == z3.BitVecVal(v, w), z3.RealVal(v), e)
            return e
        w = x.e.size()
        terms = []
        for i in range(w):
            wgt = 1 << i
            if x.lo < 0 and i == w - 1:
                wgt = -wgt
            terms.append(z3.If(z3.Extract(i, i, x.e) == 1, z3.RealVal(wgt), z3.RealVal(0)))
        return z3.Sum(terms)
    if t is SF:
        if not all(math.isfinite(v) for v in x.vals):
            # fork away the non-finite alternatives
            i = E.choose(len(x.vals), x.sel.guards)
            return frac(x.vals[i])
        e = frac(x.vals[-1])
        for g, v in zip(reversed(x.sel.guards[:-1]), reversed(x.vals[:-1])):
            e = z3.If(g, frac(v), e)
        return e
    return frac(x)


def split_nonfinite(x):
    """SF containing inf/nan: fork so that the result is a float or an all-finite SF"""
    if type(x) is SF and not all(math.isfinite(v) for v in x.vals):
        bad = [i for i, v in enumerate(x.vals) if not math.isfinite(v)]
        for i in bad:
            if E.decide(x.sel.guards[i]):
                return x.vals[i] if x.np is None else np.float64(x.vals[i])
        good = [i for i in range(len(x.vals)) if i not in bad]
        return wrap_table(Selector([x.sel.guards[i] for i in good], x.sel.key + ('fin',)), [x.vals[i] for i in good], x.np)
    return x


def realise(x):
    t = type(x)
    if t is SB:
        return E.decide(x.e)
    if t is SI:
        v = E.realise_expr(x.e)
        if x.lo < 0 and v >= 1 << (x.e.size() - 1):
            v -= 1 << x.e.size()
        return v
    if t is SF:
        key = ('sf', x.sel.key)
        hit = E.dcache.get(key)
        if hit is None:
            i = E.choose(len(x.vals), x.sel.guards)
            E.dcache[key] = (i, x.sel)
        else:
            i = hit[0]
        return x.vals[i] if x.np is None else np.float64(x.vals[i])
    if t is SR:
        raise Unsupported("realising a real")
    return x


# -- arithmetic ---------------------------------------------------------------
PYOP = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv,
        'floordiv': operator.floordiv, 'mod': operator.mod, 'pow': operator.pow, 'and': operator.and_,
        'or': operator.or_, 'xor': operator.xor, 'lshift': operator.lshift, 'rshift': operator.rshift,
        'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq,
        'ne': operator.ne}


def is_num(x):
    return is_sym(x) or isinstance(x, (bool, int, float, np.number, np.bool_))


def result_np(op, a, b):
    """numpy dtype of the scalar result or None (python scalar)"""
    na = a.np if is_sym(a) else (np.asarray(a).dtype if isinstance(a, np.generic) else None)
    nb = b.np if is_sym(b) else (np.asarray(b).dtype if isinstance(b, np.generic) else None)
    if na is None and nb is None:
        return None

    def samp(x, n):
        if n is not None:
            return n.type(1)
        c = x.__class__
        return c(1)
    try:
        with np.errstate(all='ignore'):
            r = PYOP[op](samp(a, na), samp(b, nb))
    except TypeError:
        return None
    return np.asarray(r).dtype if isinstance(r, np.generic) else None


def wrap_int(x, dt):
    """wrap an int value into dtype range"""
    if dt is None or dt.kind not in 'iu':
        return x
    info = np.iinfo(dt)
    lo, hi = rng(x)
    if lo >= info.min and hi <= info.max:
        return SI(x._e, x.lo, x.hi, x._b, dt, x.lin) if type(x) is SI else dt.type(int(x))
    w = info.bits
    if type(x) is not SI:
        v = int(x) & ((1 << w) - 1)
        if dt.kind == 'i' and v >= 1 << (w - 1):
            v -= 1 << w
        return dt.type(v)
    e = ext(x, max(w, x.e.size()))
    e = z3.Extract(w - 1, 0, e)
    if dt.kind == 'u':
        return SI(e, 0, (1 << w) - 1, None, dt, x.lin[:w] if x.lin is not None else None)
    return SI(e, info.min, info.max, None, dt)


def si_ite(c, a, b, np_=None):
    """ite over ints"""
    la, ha = rng(a)
    lb, hb = rng(b)
    lo, hi = min(la, lb), max(ha, hb)
    if lo == hi:
        return lo if np_ is None else np_.type(lo)
    w = _needw(lo, hi)
    bb = None
    if (lo, hi) == (0, 1):
        ba = as_bool_expr(a)
        b2 = as_bool_expr(b)
        bb = z3.simplify(z3.If(c, ba, b2)) if not (z3.is_true(ba) and z3.is_false(b2)) else c
        if z3.is_true(ba) and z3.is_false(b2):
            bb = c
        return SI(z3.If(bb, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1, bb, np_)

    def e(x):
        return ext(x, w)
    return SI(z3.If(c, e(a), e(b)), lo, hi, bb, np_)


def ite(c, a, b):
    """generic if-then-else; c: SB or bool"""
    if not is_sym(c):
        return a if c else b
    if a is b:
        return a
    ce = z3.simplify(as_bool_expr(c))
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    ta, tb = type(a), type(b)
    if not (is_num(a) and is_num(b)):
        if ta is tb and a == b:
            return a
        return a if E.decide(ce) else b
    np_ = None
    for x in (a, b):
        if is_sym(x) and x.np is not None:
            np_ = x.np
        elif isinstance(x, np.generic):
            np_ = np_ or np.asarray(x).dtype

    def kind(x):
        if type(x) is SB or isinstance(x, (bool, np.bool_)) and not is_sym(x):
            return 'b'
        if type(x) is SI or (not is_sym(x) and isinstance(x, (int, np.integer))):
            return 'i'
        return 'f'
    ka, kb = kind(a), kind(b)
    if ka == 'b' and kb == 'b':
        return mk_bool(z3.simplify(z3.If(ce, as_bool_expr(a), as_bool_expr(b))), np_)
    if ka in 'bi' and kb in 'bi':
        return si_ite(ce, b2i(a), b2i(b), np_)
    if np_ is not None and np_.kind != 'f':
        np_ = NPF
    if not is_sym(a) and not is_sym(b):
        if float(a) == float(b) or (a != a and b != b):
            return a
        E.keep.append(ce)
        return SF(Selector([z3.Not(ce), ce], ('sb', ce.get_id())), [float(b), float(a)], np_)
    # finite tables
    if type(a) is not SR and type(b) is not SR:
        try:
            return table_apply(lambda c_, x, y: float(x) if c_ else float(y), SB(ce, np_ and NPB), a, b)
        except Unsupported:
            pass
    for x, other in ((a, b), (b, a)):
        bad = (not is_sym(x) and not math.isfinite(x)) or (type(x) is SF and not all(map(math.isfinite, x.vals)))
        if bad:
            return a if E.decide(ce) else b
    return SR(z3.If(ce, to_real(a), to_real(b)), np_)


def b2i(x):
    if type(x) is SB:
        r = x.as_int()
        return SI(r.e, 0, 1, r.b, NPI if x.np is not None else None, (xset(x.e),))
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    return x


def sum_syms(xs):
    """balanced sum; 0/1 terms are put in a canonical order"""
    xs = list(xs)
    if len(xs) > 2 and all(type(x) is SI and x.hi == 1 and x.lo == 0 and x.b is not None and x.np is None or
                           type(x) is int for x in xs):
        k = sum(x for x in xs if type(x) is int)
        xs = sorted((x for x in xs if type(x) is SI), key=lambda x: x.b.get_id())
        if k or not xs:
            xs.append(k)
    if not xs:
        return 0
    while len(xs) > 1:
        xs = [xs[i] + xs[i + 1] if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]


def binop(op, a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        return PYOP[op](a, b)
    np_ = result_np(op, a, b)
    # bool logic
    if op in ('and', 'or', 'xor'):
        ba = type(a) is SB or isinstance(a, (bool, np.bool_)) and not is_sym(a)
        bb = type(b) is SB or isinstance(b, (bool, np.bool_)) and not is_sym(b)
        if ba and bb:
            ea, eb = as_bool_expr(a), as_bool_expr(b)
            if op == 'xor':
                return mk_bool(xor_expr(xor2(xset(ea), xset(eb))), np_)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](ea, eb)
            return mk_bool(z3.simplify(r), np_)
    if op == 'sub' and type(a) is SB and type(b) is SB and a.np is not None and b.np is not None:
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, the `^` operator, or the logical_xor function instead.")
    if np_ is not None and np_.kind == 'b' and op in ('add', 'mul'):
        return mk_bool(z3.simplify((z3.Or if op == 'add' else z3.And)(as_bool_expr(a), as_bool_expr(b))), np_)
    a, b = b2i(a), b2i(b)
    fa = type(a) in (SF, SR) or isinstance(a, (float, np.floating)) and type(a) is not SI
    fb = type(b) in (SF, SR) or isinstance(b, (float, np.floating)) and type(b) is not SI
    if op in ('and', 'or', 'xor', 'lshift', 'rshift') and (fa or fb):
        raise TypeError("unsupported operand type(s) for bit operation on float")
    if not fa and not fb and op != 'truediv' and not (op == 'pow'):
        r = int_op(op, a, b)
        if r is not None:
            if np_ is not None:
                return wrap_int(r, np_) if (type(r) is SI or isinstance(r, (int, np.integer))) else r
            return r if type(r) is SI or not isinstance(r, np.generic) else r.item()
    if op == 'pow' and not fa and not fb and not is_sym(b) and int(b) >= 0 and int(b) <= 3 and type(a) is SI:
        r = 1
        for _ in range(int(b)):
            r = r * a
        return wrap_int(r, np_) if np_ is not None else r
    return float_op(op, a, b, np_)


def force_lin(a, b):
    """bits of an arithmetic result that meets a checksum become atoms of its normal form"""
    if type(a) is SI and a.lin is None and type(b) is SI and b.lin is not None:
        w = max(1, a.hi.bit_length())
        return SI(None, a.lo, a.hi, None, None, bv_lin(ext(a, w)))
    return a


def int_op(op, a, b):
    la, ha = rng(a)
    lb, hb = rng(b)
    if op in ('xor', 'and', 'or', 'add', 'mul') and la >= 0 and lb >= 0:
        if op == 'xor' and ha < 65536 and hb < 65536:
            a, b = force_lin(a, b), force_lin(b, a)
        l = lin_op(op, a, b)
        if l is not None:
            if op in ('add', 'mul'):
                return lin_int(l, la + lb if op == 'add' else la * lb, ha + hb if op == 'add' else ha * hb)
            return lin_int(l)
    if op == 'add':
        lo, hi = la + lb, ha + hb
        w = max(_needw(lo, hi) + (lo >= 0), _needw(la, ha) + (la >= 0), _needw(lb, hb) + (lb >= 0))
        return norm_si(ext(a, w) + ext(b, w), lo, hi)
    if op == 'sub':
        lo, hi = la - hb, ha - lb
        if not is_sym(a) and la == 1 and type(b) is SI and b.lo == 0 and b.hi == 1:
            if b.lin is not None:
                return lin_int((xor2(b.lin[0], ONE),))
            bb = z3.Not(b.b) if b.b is not None else None
            return SI(~b.e, 0, 1, bb)
        w = max(_needw(lo, hi) + (lo >= 0), _needw(la, ha) + (la >= 0), _needw(lb, hb) + (lb >= 0))
        return norm_si(ext(a, w) - ext(b, w), lo, hi)
    if op == 'mul':
        cs = [la * lb, la * hb, ha * lb, ha * hb]
        lo, hi = min(cs), max(cs)
        if (la, ha) == (0, 1) and is_sym(a):
            return ite(SB(as_bool_expr(a)), b, 0)
        if (lb, hb) == (0, 1) and is_sym(b):
            return ite(SB(as_bool_expr(b)), a, 0)
        w = max(_needw(lo, hi) + (lo >= 0), _needw(la, ha) + (la >= 0), _needw(lb, hb) + (lb >= 0))
        if w > 200:
            raise Unsupported("int too wide")
        return norm_si(ext(a, w) * ext(b, w), lo, hi)
    if op in ('and', 'or', 'xor'):
        if la >= 0 and lb >= 0:
            m = (1 << max(ha.bit_length(), hb.bit_length())) - 1
            hi = min(ha, hb) if op == 'and' else m
            w = max(1, m.bit_length())
            ea, eb = ext(a, w), ext(b, w)
            e = {'and': ea & eb, 'or': ea | eb, 'xor': ea ^ eb}[op]
            if op == 'and' and hi < m:
                w2 = max(1, hi.bit_length())
                if w2 < w:
                    e = z3.Extract(w2 - 1, 0, e)
            bb = None
            if hi == 1:
                bb = z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](as_bool_expr(a), as_bool_expr(b))) \
                    if (ha <= 1 and hb <= 1) else None
            if hi == 0:
                return 0
            return SI(e, 0, hi, bb)
        w = max(_needw(min(la, -1), ha), _needw(min(lb, -1), hb))
        ea, eb = ext(a, w), ext(b, w)
        e = {'and': ea & eb, 'or': ea | eb, 'xor': ea ^ eb}[op]
        if op == 'and' and (la >= 0 or lb >= 0):
            hi = ha if la >= 0 else hb
            return norm_si(e, 0, hi) if _needw(0, hi) <= w else norm_si(z3.SignExt(1, e), 0, hi)
        return SI(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    if op == 'lshift':
        if is_sym(b):
            b = realise(b) if hb - lb < 70 else (_ for _ in ()).throw(Unsupported("shift"))
        b = int(b)
        if b < 0:
            raise ValueError("negative shift count")
        return int_op('mul', a, 1 << b)
    if op == 'rshift':
        if is_sym(b):
            b = realise(b)
        b = int(b)
        if b < 0:
            raise ValueError("negative shift count")
        if not is_sym(a):
            return int(a) >> b
        lo, hi = la >> b, ha >> b
        if lo == hi:
            return lo
        if a.lin is not None:
            return lin_int(a.lin[b:], lo, hi)
        w = a.e.size()
        return norm_si(z3.Extract(w - 1, b, a.e) if la >= 0 else a.e >> b, lo, hi)
    if op in ('floordiv', 'mod'):
        if lb <= 0 <= hb:
            if not is_sym(b):
                return None  # ZeroDivision -> float path / python error
            if E.decide(as_bool_expr(b)):
                b2 = b
            else:
                return None
            if lb == 0:
                lb = 1
                b = SI(b.e, 0, b.hi, b.b, b.np)
        if la >= 0 and lb > 0:
            if not is_sym(b) and (int(b) & (int(b) - 1)) == 0:
                k = int(b).bit_length() - 1
                return int_op('rshift', a, k) if op == 'floordiv' else int_op('and', a, int(b) - 1)
            w = max(_needw(la, ha), _needw(max(lb, 0), hb)) + 1
            ea, eb = ext(a, w), ext(b, w)
            if op == 'floordiv':
                return norm_si(z3.UDiv(ea, eb), la // hb, ha // lb)
            return norm_si(z3.URem(ea, eb), 0, min(ha, hb - 1))
        if not is_sym(b) and int(b) > 0:
            # negative dividend, positive constant divisor
            k = int(b)
            off = (-la + k - 1) // k
            shifted = int_op('add', a, off * k)
            q = int_op(op, shifted, k)
            return int_op('sub', q, off) if op == 'floordiv' else q
        return table_or_realise(op, a, b)
    return None


def table_or_realise(op, a, b):
    try:
        return table_apply(PYOP[op], a, b)
    except Unsupported:
        return PYOP[op](realise(a), realise(b))


def np_f(op, x, y):
    with np.errstate(all='ignore'):
        return float({'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'truediv': np.true_divide,
                      'floordiv': np.floor_divide, 'mod': np.mod, 'pow': np.power}[op](np.float64(x), np.float64(y)))


def float_op(op, a, b, np_):
    isnp = np_ is not None

    def f(x, y):
        if isnp:
            if op == 'pow' and isinstance(x, (int, np.integer)) and isinstance(y, (int, np.integer)) \
                    and np_.kind in 'iu':
                return int(np.power(np.int64(x), np.int64(y)))
            return np_f(op, x, y)
        return PYOP[op](x, y)
    if not isnp and op in ('truediv', 'floordiv', 'mod') and is_sym(b):
        # python semantics: ZeroDivisionError
        if not E.decide(as_bool_expr(b)):
            raise ZeroDivisionError("float division by zero")
        if type(b) is not SR:
            sel, vals = finite(b)
            keep = [i for i, v in enumerate(vals) if v != 0]
            if len(keep) < len(vals):
                b = wrap_table(Selector([sel.guards[i] for i in keep], sel.key + ('nz',)), [vals[i] for i in keep], None)
                if type(b) is SI:
                    b = SF(Selector([sel.guards[i] for i in keep], sel.key + ('nz',)), [float(vals[i]) for i in keep])
    elif not isnp and op in ('truediv', 'floordiv', 'mod') and not is_sym(b) and b == 0:
        raise ZeroDivisionError("division by zero")
    if type(a) is not SR and type(b) is not SR:
        try:
            r = table_apply(f, a, b)
            return tag(r, np_) if is_sym(r) and isnp else (np_.type(r) if isnp else r)
        except Unsupported:
            if op == 'pow':
                return f(realise(a), realise(b))
    if isnp and np_.kind in 'iu':
        np_ = NPF
    a, b = split_nonfinite(a), split_nonfinite(b)
    if not is_sym(a) and not is_sym(b):
        return np.float64(f(a, b)) if isnp else f(a, b)
    if type(a) is not SR and type(b) is not SR and not (type(a) is SI or type(b) is SI or type(a) is SF or type(b) is SF):
        return f(a, b)
    # non-finite constants
    for x, y, left in ((a, b, True), (b, a, False)):
        if not is_sym(x) and not math.isfinite(x):
            if x != x:
                return np.float64(x) if isnp else x
            if op == 'add':
                return x
            if op == 'sub':
                return x if left else -x
            if op == 'mul':
                pos = cmpop('gt', y, 0)
                if bool(pos):
                    return x
                return -x if bool(cmpop('lt', y, 0)) else float('nan')
            if op == 'truediv':
                if not left:
                    return 0.0
                return x if bool(cmpop('ge', y, 0)) else -x
            raise Unsupported("non-finite operand")
    if type(a) is SI and max(abs(a.lo), abs(a.hi)) > Q_MAX:
        a = int_to_float(a)
    if type(b) is SI and max(abs(b.lo), abs(b.hi)) > Q_MAX:
        b = int_to_float(b)
    if op == 'add':
        return SR(real_lin(lambda x, y: x + y, a, b), np_, q=lambda: q_op(op, a, b))
    if op == 'sub':
        return SR(real_lin(lambda x, y: x - y, a, b), np_, q=lambda: q_op(op, a, b))
    if op == 'mul' and (not is_sym(a) or not is_sym(b)) and SR in (type(a), type(b)):
        return SR(to_real(a) * to_real(b), np_, q=lambda: q_op(op, a, b))
    if op == 'mul':
        if type(a) is SF or type(b) is SF or type(a) is SI or type(b) is SI:
            return mul_table(a, b, np_)
        if is_sym(a) and is_sym(b) and a.e.eq(b.e):
            return SR(a.e * b.e, np_, nn=True)
        return SR(to_real(a) * to_real(b), np_)
    if op == 'truediv':
        if isnp and is_sym(b) and not getattr(b, 'nn', None) == 'pos':
            if not E.decide(as_bool_expr(b)):
                # numpy: x/0
                s = a
                if bool(cmpop('gt', s, 0)):
                    return np.float64('inf')
                if bool(cmpop('lt', s, 0)):
                    return np.float64('-inf')
                return np.float64('nan')
        if not is_sym(b):
            if b == 0:
                if bool(cmpop('gt', a, 0)):
                    return np.float64('inf')
                if bool(cmpop('lt', a, 0)):
                    return np.float64('-inf')
                return np.float64('nan')
            return SR(to_real(a) / frac(b), np_, q=lambda: q_op(op, a, b))
        if type(b) is SF:
            b2 = b
            vals = [v for v in b2.vals]
            e = None
            ra = to_real(a)
            for g, v in reversed(list(zip(b2.sel.guards, vals))):
                t = ra / frac(v) if v != 0 else z3.RealVal(0)
                e = t if e is None else z3.If(g, t, e)
            return SR(e, np_)
        return SR(to_real(a) / to_real(b), np_)
    if op == 'pow':
        if not is_sym(b) and float(b) == 2.0:
            return SR(to_real(a) * to_real(a), np_, nn=True)
        if not is_sym(b) and float(b) == 1.0:
            return SR(to_real(a), np_)
        if not is_sym(b) and float(b) == 0.5:
            return sqrt_sym(a, np_)
        if not is_sym(b) and float(b) == 0.0:
            return np.float64(1.0) if isnp else 1.0
        if not is_sym(b) and float(b) == -1.0:
            return float_op('truediv', 1.0, a, np_)
    raise Unsupported("float op %s" % op)


Q_MAX = 1 << 53


def q_fit(n, d):
    """n/d as a double: beyond 53 bits the numerator is rounded, ties to even"""
    if d > 1 << 60:
        return None
    lo, hi = rng(n)
    top = max(abs(lo), abs(hi))
    if top <= Q_MAX:
        return n, d
    if top >= 1 << 90:
        return None
    if not is_sym(n):
        return int(float(n)), d
    mag = unop('abs', n) if lo < 0 else n
    out = mag
    for k in range(54, top.bit_length() + 1):
        s = 1 << (k - 53)
        out = ite(cmpop('ge', mag, 1 << (k - 1)), binop('mul', q_round('rint', mag, s), s), out)
    return (ite(cmpop('lt', n, 0), binop('sub', 0, out), out) if lo < 0 else out), d


def q_of(x):
    """the value as integer / power of two, when it is one that a double holds exactly"""
    t = type(x)
    if t is SR:
        return x.q
    if t is SB:
        x, t = b2i(x), SI
    if t is SI:
        return q_fit(untag(x), 1)
    if t is SF:
        return None
    if isinstance(x, (bool, np.bool_)):
        return int(x), 1
    try:
        x = float(x)
    except (TypeError, ValueError):
        return None
    if not math.isfinite(x):
        return None
    n, d = x.as_integer_ratio()
    return q_fit(n, d)


def q_op(op, a, b):
    x, y = q_of(a), q_of(b)
    if x is None or y is None:
        return None
    (n, d), (m, e) = x, y
    if op == 'truediv':
        if is_sym(m) or m == 0 or abs(m) & (abs(m) - 1):
            return None
        if m < 0:
            n, m = binop('sub', 0, n), -m
        return q_fit(binop('mul', n, e), d * m)
    if op == 'mul':
        return q_fit(binop('mul', n, m), d * e)
    k = max(d, e)
    return q_fit(binop(op, binop('mul', n, k // d), binop('mul', m, k // e)), k)


def q_round(how, n, d):
    """integer nearest to n/d in the given direction; d is a power of two"""
    if d == 1:
        return n
    if how == 'trunc':
        return ite(cmpop('ge', n, 0), binop('floordiv', n, d), binop('sub', 0, binop('floordiv', binop('sub', 0, n), d)))
    if how == 'ceil':
        return binop('sub', 0, binop('floordiv', binop('sub', 0, n), d))
    f = binop('floordiv', n, d)
    if how == 'floor':
        return f
    r = binop('mul', binop('sub', n, binop('mul', f, d)), 2)     # rint: ties to even
    gt, tie, odd = cmpop('gt', r, d), cmpop('eq', r, d), cmpop('eq', binop('mod', f, 2), 1)
    up = z3.Or(as_bool_expr(gt), z3.And(as_bool_expr(tie), as_bool_expr(odd)))
    return binop('add', f, ite(mk_bool(z3.simplify(up)), 1, 0))


def real_round(how, x, n=None):
    if x.q is None or n not in (None, 0):
        raise Unsupported("%s of a real" % how)
    r = q_round(how, *x.q)
    return r if n is None else int_to_float(r, x.np)


def int_to_float(v, dt=None):
    """float(v) of a wide symbolic integer; beyond 2**53 it is rounded to 53 bits (ties to even)"""
    if not is_sym(v):
        return float(v) if dt is None else np.dtype(dt).type(v)
    q = q_fit(untag(v), 1)
    return SR(to_real(q[0] if q else v), dt, q=q)


def real_lin(f, a, b):
    return f(to_real(a), to_real(b))


def mul_table(a, b, np_):
    """finite * real -> ite of linear terms"""
    if type(a) is SR or not is_sym(a):
        a, b = b, a
    if type(b) is not SR and is_sym(b):
        return SR(to_real(a) * to_real(b), np_)
    try:
        sel, vals = finite(a)
    except Unsupported:
        return SR(to_real(a) * to_real(b), np_)
    rb = to_real(b)
    e = None
    for g, v in reversed(list(zip(sel.guards, vals))):
        t = frac(v) * rb if v != 1 else rb
        e = t if e is None else z3.If(g, t, e)
    return SR(e, np_)


_sqrt_cache = {}


def sqrt_sym(a, np_):
    """sqrt of a non-negative real via a fresh variable"""
    a = split_nonfinite(a)
    if not is_sym(a):
        return np.sqrt(np.float64(a))
    if type(a) is not SR:
        return tag(table_apply(lambda v: float(np.sqrt(np.float64(v))), a), NPF)
    if E.decide(a.e < 0):
        return np.float64('nan')
    key = ('sqrt', a.e.get_id())
    hit = E.dcache.get(key)
    if hit is not None:
        return SR(hit[0], np_, nn=True)
    v = z3.Real('!sqrt%d' % E.fresh)
    E.fresh += 1
    E.add(z3.And(v >= 0, v * v == a.e))
    E.dcache[key] = (v, a.e)
    return SR(v, np_, nn=True)


def cmpop(op, a, b):
    if not (is_num(a) and is_num(b)):
        if op == 'eq':
            return NotImplemented
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        return PYOP[op](a, b)
    np_ = None
    if (is_sym(a) and a.np is not None) or (is_sym(b) and b.np is not None) or isinstance(a, np.generic) and not is_sym(a) \
            or isinstance(b, np.generic) and not is_sym(b):
        np_ = NPB
    if type(a) is SB and not is_sym(b) and op in ('eq', 'ne') and b in (0, 1):
        e = a.e if bool(b) == (op == 'eq') else z3.Not(a.e)
        return mk_bool(e, np_)
    if type(b) is SB and not is_sym(a) and op in ('eq', 'ne') and a in (0, 1):
        e = b.e if bool(a) == (op == 'eq') else z3.Not(b.e)
        return mk_bool(e, np_)
    if type(a) is SB and type(b) is SB and op in ('eq', 'ne'):
        x = xor2(xset(a.e), xset(b.e))
        return mk_bool(xor_expr(x if op == 'ne' else xor2(x, ONE)), np_)
    a, b = b2i(a), b2i(b)
    ia = type(a) is SI or (not is_sym(a) and isinstance(a, (int, np.integer)))
    ib = type(b) is SI or (not is_sym(b) and isinstance(b, (int, np.integer)))
    if ia and ib:
        return int_cmp(op, a, b, np_)
    if type(a) is SI and not is_sym(b) and not math.isfinite(b) or type(b) is SI and not is_sym(a) and not math.isfinite(a):
        return mk_bool(z3.BoolVal(PYOP[op](0.0 if is_sym(a) else a, 0.0 if is_sym(b) else b)), np_)
    # int vs float constant: turn into int comparison
    for x, y, flip in ((a, b, False), (b, a, True)):
        if type(x) is SI and not is_sym(y):
            o = op if not flip else {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
            y = float(y)
            if y.is_integer():
                return int_cmp(o, x, int(y), np_)
            fl = math.floor(y)
            if o == 'eq':
                return mk_bool(FALSE, np_)
            if o == 'ne':
                return mk_bool(TRUE, np_)
            return int_cmp({'lt': 'le', 'le': 'le', 'gt': 'gt', 'ge': 'gt'}[o], x, fl, np_)
    if type(a) is not SR and type(b) is not SR:
        try:
            r = table_pred(PYOP[op], a, b)
            return mk_bool(as_bool_expr(r), np_)
        except Unsupported:
            pass
    a, b = split_nonfinite(a), split_nonfinite(b)
    for x, y, flip in ((a, b, False), (b, a, True)):
        if not is_sym(x) and not math.isfinite(x):
            return mk_bool(z3.BoolVal(bool(PYOP[op](x, 0.0) if not flip else PYOP[op](0.0, x))), np_)
    if SR in (type(a), type(b)):
        qa, qb = q_of(a), q_of(b)
        if qa is not None and qb is not None:
            return int_cmp(op, binop('mul', qa[0], qb[1]), binop('mul', qb[0], qa[1]), np_)
    ra, rb = to_real(a), to_real(b)
    e = {'lt': lambda: ra < rb, 'le': lambda: ra <= rb, 'gt': lambda: ra > rb, 'ge': lambda: ra >= rb,
         'eq': lambda: ra == rb, 'ne': lambda: ra != rb}[op]()
    return mk_bool(z3.simplify(e), np_)


def int_cmp(op, a, b, np_):
    la, ha = rng(a)
    lb, hb = rng(b)
    if op == 'gt':
        return int_cmp('lt', b, a, np_)
    if op == 'ge':
        return int_cmp('le', b, a, np_)
    if op == 'lt':
        if ha < lb:
            return mk_bool(TRUE, np_)
        if la >= hb:
            return mk_bool(FALSE, np_)
    elif op == 'le':
        if ha <= lb:
            return mk_bool(TRUE, np_)
        if la > hb:
            return mk_bool(FALSE, np_)
    else:
        if ha < lb or hb < la:
            return mk_bool(z3.BoolVal(op == 'ne'), np_)
    if la >= 0 and lb >= 0:
        w = max(_needw(la, ha), _needw(lb, hb))
        if op in ('eq', 'ne'):
            A, B = lin_of(a), lin_of(b)
            if A is not None and B is not None:
                hit = EQCACHE.get((A, B, op))
                if hit is not None:
                    return mk_bool(hit, np_)
                n = max(len(A), len(B))
                es = []
                for i in range(n):
                    x = xor2(A[i] if i < len(A) else ZERO, B[i] if i < len(B) else ZERO)
                    if x == ONE:
                        return mk_bool(z3.BoolVal(op == 'ne'), np_)
                    if x != ZERO:
                        es.append(xor_expr(xor2(x, ONE)))
                if not es:
                    return mk_bool(z3.BoolVal(op == 'eq'), np_)
                e = es[0] if len(es) == 1 else z3.And(es)
                if op == 'ne':
                    e = xor_expr(xor2(xset(e), ONE)) if len(es) == 1 else z3.Not(e)
                e = EQCACHE[(A, B, op)] = z3.simplify(e)
                return mk_bool(e, np_)
        if op in ('eq', 'ne') and type(a) is SI and a.b is not None and not is_sym(b) and int(b) in (0, 1):
            e = a.b if (int(b) == 1) == (op == 'eq') else z3.Not(a.b)
            return mk_bool(e, np_)
        if op in ('eq', 'ne') and type(b) is SI and b.b is not None and not is_sym(a) and int(a) in (0, 1):
            e = b.b if (int(a) == 1) == (op == 'eq') else z3.Not(b.b)
            return mk_bool(e, np_)
        ea, eb = ext(a, w), ext(b, w)
        e = {'lt': lambda: z3.ULT(ea, eb), 'le': lambda: z3.ULE(ea, eb), 'eq': lambda: ea == eb,
             'ne': lambda: ea != eb}[op]()
    else:
        w = max(_needw(min(la, -1), ha), _needw(min(lb, -1), hb))
        ea, eb = ext(a, w), ext(b, w)
        e = {'lt': lambda: ea < eb, 'le': lambda: ea <= eb, 'eq': lambda: ea == eb, 'ne': lambda: ea != eb}[op]()
    return mk_bool(z3.simplify(e), np_)


def unop(op, a):
    t = type(a)
    if op == 'pos':
        return b2i(a) if t is SB and a.np is None else a
    if op == 'invert':
        if t is SB:
            if a.np is not None:
                return mk_bool(z3.Not(a.e), a.np)
            return binop('sub', -1, a)
        if t is SI:
            if a.np is not None and a.np.kind == 'u':
                return binop('sub', int(np.iinfo(a.np).max), untag(a)) if False else \
                    wrap_int(untag(a) ^ int(np.iinfo(a.np).max), a.np)
            return binop('sub', -1, a)
        raise TypeError("bad operand type for unary ~: 'float'")
    if op == 'neg':
        if t is SB:
            a = b2i(a)
            t = SI
        if t is SI:
            r = int_op('sub', 0, a)
            return wrap_int(r, a.np) if a.np is not None else r
        if t is SF:
            return SF(a.sel, [-v for v in a.vals], a.np)
        return SR(-a.e, a.np, q=lambda: q_op('sub', 0, a))
    if op == 'abs':
        if t is SB:
            return b2i(a)
        if t is SI:
            if a.lo >= 0:
                return a
            return ite(a < 0, -a, a)
        if t is SF:
            return SF(a.sel, [abs(v) for v in a.vals], a.np)
        if a.nn:
            return a
        return SR(z3.If(a.e >= 0, a.e, -a.e), a.np, nn=True, q=lambda: a.q and (unop('abs', a.q[0]), a.q[1]))
    raise Unsupported(op)


def eval_model(m, x):
    """concrete python value of x in model m"""
    t = type(x)
    if t is SB:
        return z3.is_true(mev(m, x.e))
    if t is SI:
        v = mev(m, x.e).as_long()
        if x.lo < 0 and v >= 1 << (x.e.size() - 1):
            v -= 1 << x.e.size()
        return v
    if t is SF:
        for g, v in zip(x.sel.guards, x.vals):
            if z3.is_true(mev(m, g)):
                return v
        return x.vals[-1]
    if t is SR:
        return real_value(mev(m, x.e))
    return x


def real_value(v):
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    raise Unsupported("cannot evaluate real")
