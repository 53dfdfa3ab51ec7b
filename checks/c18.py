"""C18 context-based denoisers: counts per context, posterior, decision, edges."""
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='sequences of up to 6 symbols (two-letter alphabet) or 4 symbols (three letters), all symbolic; sequences of up to 30 symbols of which three are symbolic; contexts of 0..4 symbols; 5 channels, 3 losses',
              thorough='sequences of up to 8 symbols')
ASSUMPTIONS = ['costs and probabilities are compared up to 1e-6 (floats as reals); exact ties may go either way']
CH = dict(clean=[[1.0, 0.0], [0.0, 1.0]], low=[[0.95, 0.05], [0.05, 0.95]], high=[[0.7, 0.3], [0.3, 0.7]], skew=[[0.9, 0.1], [0.4, 0.6]],
          three=[[0.8, 0.1, 0.1], [0.05, 0.9, 0.05], [0.2, 0.1, 0.7]])
LOSS = dict(ham=[[0, 1], [1, 0]], skew=[[0, 3], [1, 0]], three=[[0, 1, 2], [1, 0, 1], [4, 1, 0]])


def cases(tier):
    x = 2 if tier == 'thorough' else 0
    out = []
    for k in (0, 1, 2):
        for ch, ls in (('low', 'ham'), ('high', 'ham'), ('skew', 'skew')):
            for hard in (True, False):
                t = '%s_k%d_%s' % ('hard' if hard else 'soft', k, ch)
                out.append(case('online_' + t, 'online', dict(k=k, ch=ch, ls=ls, hard=hard, n=(4 if k == 0 else 5) + x), cost=20))
                if k:
                    out.append(case('both_' + t, 'both', dict(k=k, ch=ch, ls=ls, hard=hard, n=(5 if k == 1 else 6) + x), cost=30))
    for hard in (True, False):
        t = 'hard' if hard else 'soft'
        out.append(case('online_clean_' + t, 'online', dict(k=1, ch='clean', ls='ham', hard=hard, n=4), cost=10))
        out.append(case('both_clean_' + t, 'both', dict(k=1, ch='clean', ls='ham', hard=hard, n=5), cost=10))
        out.append(case('both_k0_' + t, 'both', dict(k=0, ch='high', ls='ham', hard=hard, n=4), cost=10))
        out.append(case('short_' + t, 'both', dict(k=2, ch='low', ls='ham', hard=hard, n=3), cost=3))
        out.append(case('sequence_' + t, 'sequence', dict(hard=hard, n=4), cost=20))
        out.append(case('refused_' + t, 'refused', dict(hard=hard), cost=3))
        out.append(case('restart_' + t, 'restart', dict(hard=hard), cost=10))
        for k in (0, 1, 3):
            for m in (12, 30):
                out.append(case('online_long_k%d_%d_%s' % (k, m, t), 'online', dict(k=k, ch='high', ls='skew', hard=hard, n=m, sym=1 if k == 1 else 2), cost=20))
                out.append(case('both_long_k%d_%d_%s' % (k, m, t), 'both', dict(k=k, ch='high', ls='skew', hard=hard, n=m, sym=(m - 4, 5)), cost=20))
        for k in (1, 2, 3, 4):
            out.append(case('mirror_k%d_%s' % (k, t), 'both', dict(k=k, ch='high', ls='ham', hard=hard, n=5 * k + 4, sym=(k, 2 * k + 1), seq=mirror(k)), cost=20))
        for k in (3, 4):
            out.append(case('both_k%d_%s' % (k, t), 'both', dict(k=k, ch='skew', ls='ham', hard=hard, n=2 * k + 4, sym=tuple(range(0, 2 * k + 4, 3))), cost=20))
            out.append(case('restart_k%d_%s' % (k, t), 'restart', dict(hard=hard, k=k), cost=20))
    out.append(case('online_three', 'online', dict(k=1, ch='three', ls='three', hard=True, n=4), cost=40))
    out.append(case('both_three', 'both', dict(k=1, ch='three', ls='three', hard=True, n=4), cost=40))
    return out


def mirror(k):
    """contexts that are images of each other: L x R y L z R' w R"""
    left, right = [0] * (k - 1) + [1], [0, 1, 1, 1][-k:] if k > 1 else [0]
    return left + [0] + right + [1] + left + [1] + right[::-1] + [0] + left[::-1]


def inv(ch):
    return np.linalg.inv(np.array(CH[ch])).tolist()


MEMO = {}


def posterior(ch, counts, z, hard):
    """what the counts in a context say about the clean symbol, given that z was received"""
    key = (ch, tuple(counts), z, hard)
    if key not in MEMO:
        P = np.array(CH[ch])
        t = np.array(counts, dtype=float) @ np.linalg.inv(P)
        if not hard:
            t = np.maximum(t, 1.0)
        t = t * P[:, z]
        t = t if hard else t / t.sum()
        MEMO[key] = t.tolist()
    return MEMO[key]


def losses(ch, ls, counts, z):
    key = (ch, ls, tuple(counts), z)
    if key not in MEMO:
        MEMO[key] = (np.array(posterior(ch, counts, z, True)) @ np.array(LOSS[ls])).tolist()
    return MEMO[key]


def soft_loss(ch, ls, counts, z):
    key = (ch, ls, tuple(counts), z, 'soft')
    if key not in MEMO:
        p = np.array(posterior(ch, counts, z, False))
        MEMO[key] = float(p @ np.array(LOSS[ls]) @ p)
    return MEMO[key]


def cost_of(c, ch, ls, hard, counts, z, est):
    """expected loss of a decision, or of a soft estimate"""
    if hard:
        return c.tab(lambda e, z, *v: losses(ch, ls, v, z)[e], est, z, *counts)
    return c.tab(lambda z, *v: soft_loss(ch, ls, v, z), z, *counts)


def expect(c, ch, ls, hard, counts, z, est, cost):
    a = len(CH[ch])
    if hard:
        c.check('decision in the alphabet', c.And(est >= 0, est < a))
        c.check('decision minimises the expected loss',
                c.tab(lambda e, z, *v: losses(ch, ls, v, z)[e] <= min(losses(ch, ls, v, z)) + 1e-9, est, z, *counts))
    else:
        q = [est[i] for i in range(a)]
        c.check('probabilities', c.And(*[c.And(v >= 0, v <= 1 + 1e-9) for v in q]))
        c.check('probabilities sum to one', c.close(sum(q), 1.0))
        c.check('posterior of the clean symbol', c.And(*[c.close(q[i], c.tab(lambda z, *v: posterior(ch, v, z, False)[i], z, *counts)) for i in range(a)]))
    if cost is not None:
        c.check('reported cost is the expected loss', c.close(cost, cost_of(c, ch, ls, hard, counts, z, est)))


def unchanged(c, hard, a, z, est, cost=None):
    if hard:
        c.check('without a full context the symbol is kept', est == z)
    else:
        c.check('without a full context the symbol is kept', c.And(*[est[i] == c.b2i(z == i) for i in range(a)]))
    if cost is not None:
        c.check('without a full context the cost is zero', cost == 0)


def make(c, ch, ls, k, hard, cls='OnlineDude'):
    dm = c.mod('inference.dude')
    return getattr(dm, cls)(np.array(CH[ch]), np.array(LOSS[ls]), k, hard, len(CH[ch]))


def follow(c, xs, i, k, ch):
    """how often each symbol followed the present context up to now"""
    return [sum([c.b2i(c.And(xs[j] == s, *[xs[j - q] == xs[i - q] for q in range(1, k + 1)])) for j in range(k, i + 1)]) for s in range(len(CH[ch]))]


def pattern(i):
    """a fixed sequence in which short contexts recur"""
    return int(i % 5 in (1, 2) or i % 7 == 3)


def online(c, k, ch, ls, hard, n, sym=None):
    d = make(c, ch, ls, k, hard)
    a = len(CH[ch])
    xs = []
    for i in range(n):
        z = c.int('x%d' % i, 0, a - 1) if sym is None or i == 1 and k != 1 or i >= n - sym else pattern(i)
        xs.append(z)
        est, cost = d.denoise_sample(z)
        if not hard:
            est = est[0]
        if sym is not None and k <= i < n - sym:
            continue
        if i < k:
            unchanged(c, hard, a, z, est, cost)
        else:
            expect(c, ch, ls, hard, follow(c, xs, i, k, ch), z, est, cost)


def both(c, k, ch, ls, hard, n, sym=None, seq=None):
    d = make(c, ch, ls, k, hard, 'DUDE')
    a = len(CH[ch])
    x = c.ints('x', n, 0, a - 1) if sym is None else np.array([c.int('x%d' % i, 0, 1) if i in sym else seq[i] if seq else pattern(i) for i in range(n)])
    keep = x.copy()
    est, mean = d.denoise_sequence(x)
    c.check('the observations are not changed', c.same(x, keep))
    c.check('one estimate per observation', len(est) == n)
    xs = [keep[i] for i in range(n)]
    tot = 0.0
    for i in range(n):
        if i < k or i >= n - k:
            unchanged(c, hard, a, xs[i], est[i])
            continue
        counts = [sum([c.b2i(c.And(xs[j] == s, *[xs[j + q] == xs[i + q] for q in range(-k, k + 1) if q])) for j in range(k, n - k)]) for s in range(a)]
        expect(c, ch, ls, hard, counts, xs[i], est[i], None)
        tot = tot + cost_of(c, ch, ls, hard, counts, xs[i], est[i])
    c.check('mean cost', c.close(mean, tot / n))


def sequence(c, hard, n):
    """denoising a sequence at once is denoising its symbols one by one, and goes on where the last one ended"""
    d = make(c, 'high', 'skew', 1, hard)
    e = make(c, 'high', 'skew', 1, hard)
    x = c.bits('x', n)
    keep = x.copy()
    parts = [d.denoise_sequence(x[:2]), d.denoise_sequence(x[2:])]
    c.check('the observations are not changed', c.same(x, keep))
    for i in range(n):
        est, cost = parts[i // 2][0][i % 2], parts[i // 2][1][i % 2]
        e1, c1 = e.denoise_sample(keep[i])
        c.check('same estimate', c.close(est, e1 if hard else e1[0]))
        c.check('same cost', c.close(cost, c1))


def refused(c, hard):
    """a symbol outside of the alphabet is refused and counts nowhere"""
    d = make(c, 'high', 'skew', 1, hard)
    xs = []
    for i in range(4):
        if i in (1, 2):
            ok, v = c.attempt(d.denoise_sample, c.int('bad%d' % i, 2, 9) if i == 1 else -1)
            c.check('symbol outside of the alphabet is refused', not ok and isinstance(v, ValueError))
        z = c.int('x%d' % i, 0, 1)
        xs.append(z)
        est, cost = d.denoise_sample(z)
        if i:
            expect(c, 'high', 'skew', hard, follow(c, xs, i, 1, 'high'), z, est if hard else est[0], cost)


def restart(c, hard, k=1):
    """reset forgets everything; a given initial context is used at once"""
    d = make(c, 'low', 'ham', k, hard)
    for i in range(k + 1):
        d.denoise_sample(c.int('old%d' % i, 0, 1) if k == 1 else pattern(i))
    d.reset()
    for i in range(k):
        z = c.int('first%d' % i, 0, 1) if k == 1 else pattern(i)
        est, cost = d.denoise_sample(z)
        unchanged(c, hard, 2, z, est if hard else est[0], cost)
    ok, v = c.attempt(d.initial_context, (0, 1) + (0,) * (k - 1))
    c.check('context of the wrong length is refused', not ok and isinstance(v, ValueError))
    ok, v = c.attempt(d.initial_context, (0,) * (k - 1))
    c.check('context of the wrong length is refused', not ok and isinstance(v, ValueError))
    d.reset()
    xs = [c.int('start%d' % i, 0, 1) if i in (0, k - 1) else pattern(i) for i in range(k)]
    d.initial_context(tuple(xs))
    for i in range(k + 1):
        xs.append(c.int('x%d' % i, 0, 1) if k == 1 or i in (0, k) else xs[i])
        est, cost = d.denoise_sample(xs[-1])
        expect(c, 'low', 'ham', hard, follow(c, xs, i + k, k, 'low'), xs[-1], est if hard else est[0], cost)
