"""Harness context (the same harness runs symbolically over the lifted source and concretely over the untouched source),
path exploration, verdicts, replay."""
import contextlib
import copy
import hashlib
import importlib
import json
import math
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
SYM_TOL = 1e-6
NAT_TOL = 1e-7


class AssumeFailed(BaseException):
    pass


class MissingInput(BaseException):
    pass


def _mev(m, e):
    from .core import mev
    return mev(m, e)


def _native_cond(x):
    if isinstance(x, np.ndarray):
        return bool(x.all())
    return bool(x)


# ------------------------------------------------------------------------------------------------
class Native:
    """concrete context: inputs are looked up by name"""
    sym = False

    def __init__(self, values, reduced=False):
        self.values = values
        self.reduced = reduced
        self.fails = []
        self.nchecks = 0
        self.observed = []
        self.patches = []
        self.reached = set()

    def _get(self, name, default):
        return self.values.get(name, default)

    def int(self, name, lo, hi):
        return int(self._get(name, lo if lo > 0 or hi < 0 else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo, hi, grid=None):
        v = self._get(name, None)
        if v is None:
            v = grid[0] if grid else (lo + hi) / 2
        return float(v)

    def byte(self, name):
        return self.int(name, 0, 255)

    def bytes(self, name, n):
        return bytes(self.byte('%s[%d]' % (name, i)) for i in range(n))

    def bits(self, name, n, dtype=np.int64):
        return np.array([self.int('%s[%d]' % (name, i), 0, 1) for i in range(n)], dtype=dtype)

    def ints(self, name, n, lo, hi, dtype=np.int64):
        return np.array([self.int('%s[%d]' % (name, i), lo, hi) for i in range(n)], dtype=dtype)

    def reals(self, name, n, lo, hi, grid=None):
        return np.array([self.real('%s[%d]' % (name, i), lo, hi, grid) for i in range(n)], dtype=np.float64)

    def choice(self, name, options):
        return options[int(self._get('choice:' + name, 0))]

    def assume(self, cond):
        if not _native_cond(cond):
            raise AssumeFailed()

    def check(self, label, cond):
        self.nchecks += 1
        if not _native_cond(cond):
            self.fails.append(label)

    def reach(self, label, cond=True):
        if cond:
            self.reached.add(label)

    def observe(self, label, value):
        self.observed.append((label, copy.deepcopy(value)))

    def mod(self, name):
        return importlib.import_module(name)

    def attempt(self, f, /, *a, **k):
        """-> (ok, value or exception)"""
        try:
            return True, f(*a, **k)
        except Exception as e:
            return False, e

    def And(self, *xs):
        return all(_native_cond(x) for x in xs)

    def Or(self, *xs):
        return any(_native_cond(x) for x in xs)

    def Not(self, x):
        return not _native_cond(x)

    def Implies(self, a, b):
        return (not _native_cond(a)) or _native_cond(b)

    def Iff(self, a, b):
        return _native_cond(a) == _native_cond(b)

    def If(self, c, a, b):
        return a if _native_cond(c) else b

    def b2i(self, x):
        return 1 if x else 0

    def is_false(self, x):
        """syntactically false (an optimisation hook: may be False for a condition that cannot hold)"""
        return not x

    def close(self, a, b, tol=None):
        tol = NAT_TOL if tol is None else tol / 10
        a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
        if a.shape != b.shape:
            return False
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        with np.errstate(all='ignore'):
            return bool(np.all(same | (np.abs(a - b) <= tol * np.maximum(1, np.abs(b)))))

    def same(self, a, b):
        """same shape and elementwise equal"""
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(a == b))

    def tab(self, fn, *args):
        return fn(*args)

    def family(self, name, rows):
        return [float(v) for v in rows[self.int(name, 0, len(rows) - 1)]]

    def patch(self, obj, name, value):
        self.patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def unpatch(self):
        for o, n, v in reversed(self.patches):
            setattr(o, n, v)
        self.patches = []

    def undef(self, xs):
        return xs

    def seq(self, kind, items):
        """build bytes / bytearray / array('B') from items"""
        if kind == 'bytes':
            return bytes(items)
        if kind == 'bytearray':
            return bytearray(items)
        from array import array
        return array('B', items)


# ------------------------------------------------------------------------------------------------
class Symbolic:
    sym = True

    def __init__(self, reduced=False):
        from . import core, models, arrays, lift
        self.core, self.models, self.arrays, self.lift = core, models, arrays, lift
        self.E = core.E
        self.reduced = reduced
        self.inputs = {}
        self.choices = {}
        self.checks = []
        self.observed = []
        self.patches = []
        self.reached = []
        self.cache = {}

    def _reg(self, name, mk):
        v = self.inputs.get(name)
        if v is None:
            v = self.inputs[name] = mk()
        return v

    def int(self, name, lo, hi):
        return self._reg(name, lambda: self.core.new_int(name, lo, hi))

    def bool(self, name):
        import z3
        return self._reg(name, lambda: self.core.SB(z3.Bool(name)))

    def real(self, name, lo, hi, grid=None):
        import z3

        def mk():
            if self.reduced and grid:
                n = len(grid)
                s = self.core.new_int(name + '#', 0, n - 1)
                if n == 1:
                    return float(grid[0])
                sel, _ = self.core.finite(s)
                return self.core.SF(sel, [float(v) for v in grid])
            v = z3.Real(name)
            self.E.add(v >= self.core.frac(lo))
            self.E.add(v <= self.core.frac(hi))
            return self.core.SR(v, None, lo >= 0)
        return self._reg(name, mk)

    def byte(self, name):
        return self.int(name, 0, 255)

    def bytes(self, name, n):
        return self.models.norm_bytes([self.byte('%s[%d]' % (name, i)) for i in range(n)])

    def bits(self, name, n, dtype=np.int64):
        dt = np.dtype(dtype)
        return self.arrays.make_array([self.int('%s[%d]' % (name, i), 0, 1) for i in range(n)], dtype=dt)

    def ints(self, name, n, lo, hi, dtype=np.int64):
        return self.arrays.make_array([self.int('%s[%d]' % (name, i), lo, hi) for i in range(n)], dtype=np.dtype(dtype))

    def reals(self, name, n, lo, hi, grid=None):
        return self.arrays.make_array([self.real('%s[%d]' % (name, i), lo, hi, grid) for i in range(n)],
                                      dtype=np.dtype(np.float64))

    def choice(self, name, options):
        if name not in self.choices:
            self.choices[name] = self.E.choose(len(options)) if len(options) > 1 else 0
        return options[self.choices[name]]

    def _cond(self, x):
        if isinstance(x, (bool, np.bool_)) and not self.core.is_sym(x):
            return self.core.TRUE if x else self.core.FALSE
        if type(x) in (self.arrays.SA, self.arrays.GA):
            return self.core.as_bool_expr(x.all())
        return self.core.as_bool_expr(x)

    def _wrap(self, e):
        import z3
        return self.core.mk_bool(z3.simplify(e))

    def assume(self, cond):
        import z3
        e = z3.simplify(self._cond(cond))
        if z3.is_false(e):
            raise self.core.PathAbort("assume")
        self.E.add(e)
        if self.E.model is None and self.E.pos >= len(self.E.prefix):
            self.E.get_model()

    def check(self, label, cond):
        self.checks.append((label, self._cond(cond)))

    def reach(self, label, cond=True):
        self.reached.append((label, self._cond(cond)))

    def observe(self, label, value):
        self.observed.append((label, snapshot(self, value)))

    def mod(self, name):
        return self.lift.L.load(name)

    def attempt(self, f, /, *a, **k):
        try:
            return True, self.models.sx_call(f, *a, **k)
        except Exception as e:
            return False, e

    def And(self, *xs):
        import z3
        return self._wrap(z3.And([self._cond(x) for x in xs]))

    def Or(self, *xs):
        import z3
        return self._wrap(z3.Or([self._cond(x) for x in xs]))

    def Not(self, x):
        import z3
        return self._wrap(z3.Not(self._cond(x)))

    def Implies(self, a, b):
        import z3
        return self._wrap(z3.Or(z3.Not(self._cond(a)), self._cond(b)))

    def Iff(self, a, b):
        return self._wrap(self._cond(a) == self._cond(b))

    def If(self, c, a, b):
        import z3
        e = z3.simplify(self._cond(c))
        if z3.is_true(e):
            return a
        if z3.is_false(e):
            return b
        return self.core.ite(self.core.SB(e), a, b)

    def is_false(self, x):
        import z3
        return z3.is_false(z3.simplify(self._cond(x)))

    def b2i(self, x):
        return self.core.b2i(self._wrap(self._cond(x)))

    def close(self, a, b, tol=None):
        tol = SYM_TOL if tol is None else tol
        A, B = self.arrays.asSA(a), self.arrays.asSA(b)
        if A.shape != B.shape:
            return False
        out = []
        for x, y in zip(A.a.reshape(-1), B.a.reshape(-1)):
            if not self.core.is_sym(x) and not self.core.is_sym(y):
                x, y = float(x), float(y)
                out.append(x == y or x != x and y != y or abs(x - y) <= tol * max(1, abs(y)))
                continue
            out.append(self.close1(x, y, tol))
        return self.And(*out) if out else True

    def close1(self, x, y, tol):
        import z3
        if x is y:
            return True
        core = self.core
        t = (core.SR, core.SF)
        if type(x) is core.SR or type(y) is core.SR:
            X, Y = core.to_real(x), core.to_real(y)
            d = X - Y
            tt = core.frac(tol)
            m = z3.If(Y >= 1, Y, z3.If(Y <= -1, -Y, z3.RealVal(1)))
            return self._wrap(z3.And(d <= tt * m, d >= -tt * m))
        if type(x) is core.SF or type(y) is core.SF:
            def f(u, v):
                u, v = float(u), float(v)
                return bool(u == v or u != u and v != v or abs(u - v) <= tol * max(1, abs(v)))
            return core.table_pred(f, core.untag(x), core.untag(y))
        return x == y

    def same(self, a, b):
        A, B = self.arrays.asSA(a), self.arrays.asSA(b)
        if A.shape != B.shape:
            return False
        out = []
        for x, y in zip(A.a.reshape(-1), B.a.reshape(-1)):
            out.append(x is y or x == y)
        return self.And(*out) if out else True

    def family(self, name, rows):
        """one of the given rows of numbers, chosen by the solver: a list of columns over one shared case split"""
        i = self.int(name, 0, len(rows) - 1)
        sel, _ = self.core.finite(i)
        sel = self.core.Selector(sel.guards, ('fam',) + tuple(sel.key))
        return [self.core.SF(sel, [float(r[j]) for r in rows]) for j in range(len(rows[0]))]

    def tab(self, fn, *args):
        """a native oracle function of a few small finite operands, as a table over them"""
        return self.core.table_apply(fn, *[self.core.untag(a) for a in args])

    def patch(self, obj, name, value):
        self.patches.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    unpatch = Native.unpatch

    def seq(self, kind, items):
        if kind == 'bytes':
            return self.models.m_bytes(items)
        if kind == 'bytearray':
            return self.models.m_bytearray(items)
        return self.models.m_array('B', items)


# -- evaluating symbolic structures ----------------------------------------------------------------
def snapshot(c, x):
    """copy containers so later mutation does not change what was observed"""
    t = type(x)
    if t is c.arrays.SA:
        return c.arrays.SA(x.a.copy(), x.dtype)
    if t is c.models.SBytes or t is c.models.SArr:
        y = copy.copy(x)
        y.items = list(x.items)
        return y
    if t is list:
        return [snapshot(c, v) for v in x]
    if t is tuple:
        return tuple(snapshot(c, v) for v in x)
    if t is dict:
        return {k: snapshot(c, v) for k, v in x.items()}
    return x


def conc(c, m, x):
    core, models, arrays = c.core, c.models, c.arrays
    t = type(x)
    if t in core.SYM_TYPES:
        return core.eval_model(m, x)
    if t is arrays.SA:
        return [conc(c, m, v) for v in x.a.reshape(-1).tolist()] if x.a.ndim <= 1 else [conc(c, m, x[i]) for i in
                                                                                        range(len(x))]
    if t is arrays.GA:
        import z3
        return [conc(c, m, v) for v, g in zip(x.vals, x.guards) if z3.is_true(_mev(m, g))]
    if t is models.SBytes or t is models.SArr:
        return [conc(c, m, v) for v in x.items]
    if t is models.SymBits:
        return [bool(conc(c, m, v)) for v in x.items]
    if t is models.OF or t is models.SHex:
        return None
    if t in (list, tuple):
        return [conc(c, m, v) for v in x]
    if t is dict:
        return {k: conc(c, m, v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def norm(x):
    import bitstring
    from array import array
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (bytes, bytearray, array)):
        return list(x)
    if isinstance(x, bitstring.Bits):
        return [bool(b) for b in x]
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (bool, int, float)) or x is None:
        return x
    return str(x)


def agree(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(agree(a[k], b[k]) for k in a)
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        if a == b or a != a and b != b:
            return True
        if math.isinf(a) or math.isinf(b) or a != a or b != b:
            return False
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    return str(a) == str(b)


# -- native runs ------------------------------------------------------------------------------------
def native_paths():
    for p in (VERIF, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)


def purge_native():
    for n, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None) or ''
        if f.startswith(REPO + '/') and not n.endswith('HC_dialect'):
            del sys.modules[n]
        elif n == 'checks' or n.startswith('checks.'):
            del sys.modules[n]


class Hang(BaseException):
    pass


def run_native(modname, fname, params, values, reduced=False, timeout=60):
    """-> dict(status ok|fail|exc|assume, fails, nchecks, observed, exc)"""
    native_paths()
    mod = importlib.import_module('checks.' + modname)
    c = Native(values, reduced)
    out = dict(status='ok', fails=[], exc=None)

    def on_alarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on_alarm)
    left = signal.alarm(timeout)
    import warnings
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), open(os.devnull, 'w') as dn, \
                contextlib.redirect_stdout(dn):
            warnings.simplefilter('ignore')
            getattr(mod, fname)(c, **params)
    except AssumeFailed:
        out['status'] = 'assume'
    except Hang:
        out['status'] = 'exc'
        out['exc'] = 'does not terminate within %ds' % timeout
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        out['status'] = 'exc'
        out['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        out['where'] = '%s:%s' % (where[-1].filename, where[-1].name) if where else 'harness:%s' % (tb[-1].name if tb else '')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        c.unpatch()
    if c.fails and out['status'] in ('ok', 'exc'):
        out['status'] = 'fail'
    out['fails'] = c.fails
    out['nchecks'] = c.nchecks
    out['observed'] = c.observed
    return out


def write_replay(pid, modname, case, values, label, detail):
    d = os.path.join(VERIF, 'replays', pid)
    os.makedirs(d, exist_ok=True)
    rec = dict(property=pid, module=modname, case=case['name'], fn=case['fn'], params=case['params'], inputs=values,
               label=label, detail=detail)
    s = json.dumps(rec, indent=1, default=str, sort_keys=True)
    p = os.path.join(d, hashlib.sha256(s.encode()).hexdigest()[:16] + '.json')
    with open(p, 'w') as f:
        f.write(s + '\n')
    return p


def fresh_replay(path):
    """run the replay in a fresh interpreter on the untouched source; -> (reproduced, text)"""
    try:
        r = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'replay.py'), path], capture_output=True, text=True,
                           timeout=180, cwd=VERIF, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    except subprocess.TimeoutExpired:
        return True, 'replay does not terminate'
    return r.returncode == 1, (r.stdout + r.stderr)[-2000:]


# -- exploration ------------------------------------------------------------------------------------
def model_values(c, m):
    vals = {}
    for n, v in c.inputs.items():
        vals[n] = c.core.eval_model(m, v)
        if isinstance(vals[n], np.generic):
            vals[n] = vals[n].item()
    for n, v in c.choices.items():
        vals['choice:' + n] = v
    return vals


def explore(pid, modname, case, reduced, deadline, known, max_viol=3):
    """explore one case; -> result dict"""
    import z3
    from . import core, models, lift, npmodel
    E = core.E
    E.deadline = deadline
    E.pending = []
    E.solver = None
    E.reals = False
    opts = case.get('opts', {})
    E.query_timeout = opts.get('query_ms', 60000)
    name, fname, params = case['name'], case['fn'], case['params']
    R = dict(case=name, reduced=reduced, paths=0, decided=0, aborted=0, checks=0, inconclusive=[], violations=[], known=[],
             validated=0, mismatches=[], reach={}, nontrivial=0, leftover=0, samples=[], labels={})
    q0 = (E.q_count, E.q_time, E.q_sat, E.q_unsat, E.q_unknown, E.decisions, E.realised)
    pending = [[]]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rnd = random.Random(seed)
    seen_viol = set()
    path_limit = opts.get('path_s', 120)
    spurious = 0

    def on_alarm(*_):
        raise core.Budget("path time limit")

    def candidate(c, m, label, detail):
        """confirm a counterexample on the real code; -> True if confirmed"""
        vals = model_values(c, m)
        p = write_replay(pid, modname, case, vals, label, detail)
        nat = run_native(modname, fname, params, vals, reduced)
        ok = nat['status'] in ('fail', 'exc')
        if ok:
            ok, text = fresh_replay(p)
        if not ok:
            os.unlink(p)
            return False, nat
        return True, (p, nat, vals)

    def record(info, label):
        p, nat, vals = info
        what = (nat['fails'][0] if nat['fails'] else 'exception %s at %s' % (nat['exc'], nat.get('where')))
        for k in known:
            if k['property'] == pid and k.get('case', name) == name and k.get('label') in (nat['fails'] + [nat['exc']]) and \
                    all(l in k.get('labels', [k.get('label')]) for l in nat['fails']):
                key = ('known', k['id'])
                if key not in seen_viol:
                    seen_viol.add(key)
                    R['known'].append(k['id'])
                os.unlink(p)
                return
        key = (what,)
        if key in seen_viol:
            os.unlink(p)
            return
        seen_viol.add(key)
        R['violations'].append(dict(case=name, label=what, inputs=vals, replay=p, exc=nat['exc'],
                                    where=nat.get('where')))

    while pending:
        if time.time() > deadline or len(R['violations']) >= max_viol or R['paths'] >= opts.get('max_paths', 20000):
            R['leftover'] = len(pending)
            break
        prefix = pending.pop()
        E.pending = []
        E.begin(prefix)
        lift.L.reset()
        c = Symbolic(reduced)
        exc = None
        stop = None
        E.path_deadline = time.time() + path_limit
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(int(path_limit) + 5)
        import warnings
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                fn = getattr(lift.L.load('checks.' + modname), fname)
                fn(c, **params)
        except core.PathAbort:
            stop = 'abort'
        except (core.Unsupported, core.Nondeterminism) as e:
            stop = '%s: %s' % (type(e).__name__, e)
            if os.environ.get('SX_DEBUG'):
                traceback.print_exc()
        except core.Budget as e:
            stop = 'Budget: %s' % e
            if os.environ.get('SX_DEBUG'):
                traceback.print_exc()
        except z3.Z3Exception as e:
            stop = 'z3: %s' % e
            if os.environ.get('SX_DEBUG'):
                traceback.print_exc()
        except Exception as e:
            exc = e
            if os.environ.get('SX_DEBUG'):
                traceback.print_exc()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            c.unpatch()
        pending.extend(E.pending)
        E.pending = []
        R['paths'] += 1
        if stop == 'abort':
            R['aborted'] += 1
            continue
        try:
            m = None
            if stop is not None:
                R['inconclusive'].append(stop)
                # probe: the real code on a model of the path so far
                try:
                    E.deadline = time.time() + 30
                    m = E.get_model()
                except (core.Unsupported, core.PathAbort, core.Budget):
                    m = None
                E.deadline = deadline
                if m is not None:
                    ok, info = candidate(c, m, 'probe', stop)
                    if ok:
                        record(info, 'probe')
                continue
            m = E.get_model()
            if exc is not None:
                ok, info = candidate(c, m, 'exception', '%s: %s' % (type(exc).__name__, exc))
                if ok:
                    record(info, 'exception')
                    R['decided'] += 1
                else:
                    spurious += 1
                    R['inconclusive'].append('unconfirmed exception %s: %s' % (type(exc).__name__, str(exc)[:200]))
                continue
            R['checks'] += len(c.checks)
            for l, e in c.checks:
                R['labels'][l] = R['labels'].get(l, 0) + 1
            todo = [(l, z3.simplify(e)) for l, e in c.checks]
            todo = [(l, e) for l, e in todo if not z3.is_true(e)]
            ok_path = True
            blocked = []
            tries = 0
            if todo:
                R['nontrivial'] += 1
            while todo:
                r, mm = E.check(z3.Or([z3.Not(e) for _, e in todo]), *blocked)
                if r is False:
                    break
                if r is None:
                    ok_path = False
                    R['inconclusive'].append('solver unknown on property query')
                    ok, info = candidate(c, m, 'probe', 'unknown')
                    if ok:
                        record(info, 'probe')
                    break
                bad = [l for l, e in todo if not z3.is_true(_mev(mm, e))]
                ok, info = candidate(c, mm, bad[0] if bad else '?', '')
                if ok:
                    record(info, bad)
                    labs = set(info[1]['fails']) | set(bad)
                    todo = [(l, e) for l, e in todo if l not in labs]
                    if info[1]['exc'] or len(R['violations']) >= max_viol:
                        break
                    continue
                tries += 1
                if os.environ.get('SX_DEBUG'):
                    print('spurious', bad, model_values(c, mm), info)
                if tries >= 4:
                    ok_path = False
                    R['inconclusive'].append('unconfirmed counterexample %s' % bad[:3])
                    break
                blocked.append(z3.Or([diff(c, mm, v) for v in c.inputs.values()]))
            if ok_path:
                R['decided'] += 1
            for l, e in c.reached:
                if R['reach'].get(l):
                    continue
                if z3.is_true(_mev(m, e)):
                    R['reach'][l] = True
                else:
                    r, _ = E.check(e)
                    R['reach'][l] = bool(r)
            # concordance of the encoding with the real code on a model of this path
            lim = opts.get('validate', 150)
            if R['validated'] < lim or rnd.random() < 0.05:
                sp = [conc(c, m, v) for _, v in c.observed]
                vals = model_values(c, m)
                nat = run_native(modname, fname, params, vals, reduced)
                R['validated'] += 1
                if len(R['samples']) < 3:
                    R['samples'].append(dict(case=name, inputs={k: v for k, v in list(vals.items())[:40]},
                                             checks=len(c.checks), observed=norm(sp)[:3] if sp else []))
                if nat['status'] in ('fail', 'exc') and ok_path and not R['violations']:
                    p = write_replay(pid, modname, case, vals, 'concordance', '')
                    ok, text = fresh_replay(p)
                    if ok:
                        record((p, nat, vals), 'concordance')
                    else:
                        os.unlink(p)
                        R['mismatches'].append('native %s %s %s' % (nat['status'], nat['fails'][:3], nat['exc']))
                elif nat['status'] == 'assume':
                    R['mismatches'].append('native run rejects the assumption')
                elif nat['status'] == 'ok':
                    a = [norm(x) for x in sp]
                    b = [norm(v) for _, v in nat['observed']]
                    if not agree(a, b):
                        which = [l for (l, _), x, y in zip(c.observed, a, b) if not agree(x, y)]
                        R['mismatches'].append('observation differs: %s' % which[:3])
                        if os.environ.get('SX_DEBUG'):
                            print('MISMATCH', which, [(x, y) for x, y in zip(a, b) if not agree(x, y)][:2], vals)
        except core.Budget as e:
            R['inconclusive'].append('Budget: %s' % e)
        except core.PathAbort:
            R['aborted'] += 1
        except core.Unsupported as e:
            R['inconclusive'].append('Unsupported: %s' % e)
    q1 = (E.q_count, E.q_time, E.q_sat, E.q_unsat, E.q_unknown, E.decisions, E.realised)
    R['queries'], R['solver_s'], R['sat'], R['unsat'], R['unknown'], R['branches'], R['realised'] = \
        [b - a for a, b in zip(q0, q1)]
    R['wall_s'] = time.time() - t0
    R['functions'] = sorted(models.seen_functions())
    R['sources'] = {n: s for n, s in lift.L.sources.items() if not n.startswith('checks')}
    return R


def diff(c, m, v):
    import z3
    core = c.core
    if type(v) is core.SB:
        return v.e != _mev(m, v.e)
    if type(v) is core.SI:
        return v.e != _mev(m, v.e)
    if type(v) is core.SR:
        x = _mev(m, v.e)
        return z3.Or(v.e > x + z3.RealVal('1/8'), v.e < x - z3.RealVal('1/8'))
    if type(v) is core.SF:
        return z3.Or([g != _mev(m, g) for g in v.sel.guards])
    return z3.BoolVal(False)
