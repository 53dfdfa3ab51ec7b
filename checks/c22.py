"""C22 Markov sources."""
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='chains of order 1..4 over 2..9 states, 4..16 samples, with and without deterministic transitions, symbolic initial states, every outcome of every draw',
              thorough='up to 8 samples')
ASSUMPTIONS = ['the random draw of numpy is a stand-in that returns an arbitrary state of positive probability']


def cases(tier):
    x = 2 if tier == 'thorough' else 0
    return [case('order1', 'chain', dict(order=1, k=2, n=4 + x, init='list'), cost=5),
            case('order1_int', 'chain', dict(order=1, k=3, n=4, init='int'), cost=5),
            case('order2', 'chain', dict(order=2, k=2, n=6 + x, init='list'), cost=10),
            case('order2_three', 'chain', dict(order=2, k=3, n=5, init='list'), cost=20),
            case('order3', 'chain', dict(order=3, k=2, n=6 + x, init='list'), cost=10),
            case('initial', 'chain', dict(order=2, k=2, n=2, init='list'), cost=1),
            case('order1_long', 'chain', dict(order=1, k=3, n=16, init='list'), cost=20),
            case('order1_fixed', 'chain', dict(order=1, k=3, n=16, init='list', fixed=True), cost=20),
            case('order2_fixed', 'chain', dict(order=2, k=2, n=12, init='list', fixed=True), cost=20),
            case('order2_long', 'chain', dict(order=2, k=2, n=10, init='list'), cost=20),
            case('order4', 'chain', dict(order=4, k=2, n=8, init='list'), cost=20),
            case('order1_five', 'chain', dict(order=1, k=5, n=4, init='int'), cost=20),
            case('order1_nine', 'chain', dict(order=1, k=9, n=5, init='list'), cost=20),
            case('refused', 'refused', {}, cost=1)]


def matrix(order, k, fixed=False):
    """a chain all of whose rows differ, some with impossible transitions"""
    m = np.zeros((k,) * (order + 1))
    rows = k ** order
    m2 = m.reshape(rows, k)
    for r in range(rows):
        w = [(r + 1) * (j + 2) % (rows + 3) for j in range(k)]
        w[(r + 1) % k] += 1
        if fixed and r % 2 == 0:
            w = [int(j == (r + 1) % k) for j in range(k)]
        for j in range(k):
            m2[r, j] = w[j] / sum(w)
    return m2.reshape((k,) * (order + 1))


def chain(c, order, k, n, init, fixed=False):
    rs = c.mod('utils.random_sources')
    m = matrix(order, k, fixed)
    keep = m.copy()
    first = [c.int('s%d' % i, 0, k - 1) for i in range(order)]
    drawn = []
    probs = []

    def choice(a, size=None, replace=True, p=None):
        z = c.int('draw%d' % len(drawn), 0, k - 1)
        items = list(range(a)) if isinstance(a, int) else list(a)
        c.check('draw from the states', items == list(range(k)) and size is None)
        pv = [p[j] for j in range(k)]
        c.assume(c.And(*[c.Implies(z == j, pv[j] > 0) for j in range(k)]))
        drawn.append(z)
        probs.append(pv)
        return z
    c.patch(rs.np.random, 'choice', choice)
    start = first if init == 'list' else c.choice('start', list(range(k)))
    out = rs.generate_markov_samples(m, start, n)
    c.unpatch()
    c.check('the chain is not changed', c.same(m, keep))
    c.check('number of samples', out.shape == (n,))
    s = [out[i] for i in range(n)]
    if init == 'int':
        c.check('initial state', s[0] == start)
    else:
        c.check('initial states', c.And(*[s[i] == first[i] for i in range(order)]))
    c.check('one draw per sample', len(drawn) == n - order)
    for i in range(order, n):
        c.check('the samples are the draws', s[i] == drawn[i - order])
        want = [c.tab(lambda *v: float(keep[tuple(v)][j]), *s[i - order:i]) for j in range(k)]
        c.check('each draw has the distribution that follows the preceding samples', c.And(*[c.close(probs[i - order][j], want[j]) for j in range(k)]))


def refused(c):
    rs = c.mod('utils.random_sources')
    for mat, init in ((matrix(2, 2), [0]), (matrix(1, 2), [0, 1]), (np.array([[0.5, 0.25, 0.25], [0.2, 0.4, 0.4]]), [0])):
        ok, e = c.attempt(rs.generate_markov_samples, mat, init, 4)
        c.check('inconsistent dimensions are refused', not ok and isinstance(e, ValueError))
