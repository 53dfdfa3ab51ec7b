"""C28 Bernoulli mixture model."""
import numpy as np
from scipy.special import logsumexp
from checks.lib import case

BOUNDS = dict(quick='2..3 samples of 2 binary features, all symbolic, 2 or 3 components, several parameter sets (with certain bits, unequal weights); '
                    '5 features with one symbolic sample, 4 components, 9 samples of which two are symbolic; 1..3 EM steps (7 and 25 on small data) from given starting means, repeated fits',
              thorough='4 samples, 3 EM steps')
ASSUMPTIONS = ['floats are functions of the bounded data and are tabulated exactly; compared up to 1e-6',
               'the random starting point is replaced by given numbers']

PI = dict(even=[0.5, 0.5], odd=[0.2, 0.8], three=[0.5, 0.25, 0.25], four=[0.4, 0.3, 0.2, 0.1])
MU = dict(mid=[[0.3, 0.6], [0.7, 0.2]], far=[[0.05, 0.9], [0.9, 0.15]], same=[[0.4, 0.4], [0.4, 0.4]], certain=[[0.0, 0.6], [1.0, 0.3]],
          three=[[0.2, 0.7], [0.5, 0.5], [0.8, 0.1]], wide=[[0.1, 0.5, 0.7, 0.3, 0.9], [0.6, 0.2, 0.4, 0.8, 0.5]],
          four=[[0.2, 0.7], [0.5, 0.5], [0.8, 0.1], [0.35, 0.95]])


def cases(tier):
    T = tier != 'quick'
    out = []
    for mu, pi in (('mid', 'even'), ('far', 'odd'), ('certain', 'odd'), ('same', 'odd'), ('three', 'three')):
        out.append(case('posterior_%s_%s' % (mu, pi), 'posterior', dict(mu=mu, pi=pi, n=2), cost=3))
        if mu != 'same':
            out.append(case('mstep_%s_%s' % (mu, pi), 'mstep', dict(mu=mu, pi=pi, n=3 if not T else 4), cost=5))
    for mu in ('mid', 'far', 'three'):
        for s in (1, 2, 3) if T else (1, 2):
            out.append(case('fit_%s_%d' % (mu, s), 'fit', dict(mu=mu, steps=s, n=3), cost=9))
    for mu in ('mid', 'far', 'three'):
        out.append(case('fit_more_%s' % mu, 'fit', dict(mu=mu, steps=7, n=2), cost=20))
        out.append(case('fit_many_%s' % mu, 'fit', dict(mu=mu, steps=4 if T else 3, n=9, fixed=7), cost=20))
        out.append(case('fit_long_%s' % mu, 'fit', dict(mu=mu, steps=25, n=5, fixed=4), cost=20))
        out.append(case('fit_again_%s' % mu, 'again', dict(mu=mu), cost=20))
    for mu, pi in (('wide', 'odd'), ('four', 'four')):
        out.append(case('posterior_%s' % mu, 'posterior', dict(mu=mu, pi=pi, n=2 if mu == 'four' else 1), cost=20))
        out.append(case('mstep_%s' % mu, 'mstep', dict(mu=mu, pi=pi, n=2 if mu != 'wide' else 1), cost=20))
    out.append(case('fit_wide', 'fit', dict(mu='wide', steps=2, n=2, fixed=1), cost=20))
    out.append(case('fit_four', 'fit', dict(mu='four', steps=3, n=3), cost=20))
    return out


def logp(x, mu, k):
    """log likelihood of a sample given component k; certain bits that disagree are (practically) impossible"""
    return sum([np.log(max(mu[k][j] if x[j] else 1 - mu[k][j], 1e-200)) for j in range(len(x))])


def post(x, mu, pi):
    l = [np.log(pi[k]) + logp(x, mu, k) for k in range(len(pi))]
    z = logsumexp(l)
    return [float(np.exp(v - z)) for v in l], float(z)


def data(c, n, F=2, fixed=0, name='x'):
    """every binary data set of n samples of F features (the first `fixed` samples are set)"""
    m = n - fixed
    v = c.family(name, [[(r >> q) & 1 for q in range(F * m)] for r in range(2 ** (F * m))])
    return np.array([[int((3 * i + j * j + i // 3) % 4 > 1) for j in range(F)] for i in range(fixed)] + [[v[F * i + j] for j in range(F)] for i in range(m)])


def model(c, mu, pi, n):
    b = c.mod('inference.bmm')
    m = b.BMM(len(PI[pi]), 1)
    m.mu = np.array(MU[mu])
    m.pi = np.array(PI[pi])
    x = data(c, n, len(MU[mu][0]))
    return m, x


def posterior(c, mu, pi, n):
    m, x = model(c, mu, pi, n)
    K = len(PI[pi])
    lb = m.get_log_bernoullis(x)
    g = m.get_responsibilities(lb)
    ss = m.score_samples(x)
    y = m.predict(x)
    total = 0
    for i in range(n):
        xi = [x[i, j] for j in range(len(MU[mu][0]))]
        c.check('log likelihood given the component',
                c.And(*[c.close(lb[i, k], c.tab(lambda *a: float(logp(a, MU[mu], k)), *xi)) for k in range(K)]))
        w = [c.tab(lambda *a: post(a, MU[mu], PI[pi])[0][k], *xi) for k in range(K)]
        z = c.tab(lambda *a: post(a, MU[mu], PI[pi])[1], *xi)
        c.check('responsibilities are the posterior', c.And(*[c.close(g[i, k], w[k]) for k in range(K)]))
        c.check('log likelihood of the sample', c.close(ss[i], z))
        c.check('the predicted component is a most probable one',
                c.Or(*[c.And(y[i] == k, *[w[k] >= w[q] - 1e-9 for q in range(K)]) for k in range(K)]))
        total = total + z
    c.check('the score is the mean log likelihood', c.close(m.score(x), total / n))
    c.check('scoring changes no parameter', c.And(c.same(m.mu, np.array(MU[mu])), c.same(m.pi, np.array(PI[pi]))))


def em(c, xs, mu, pi):
    """one EM step on concrete data"""
    n, K = len(xs), len(pi)
    g = [post(x, mu, pi)[0] for x in xs]
    N = [sum([g[i][k] for i in range(n)]) for k in range(K)]
    return [[sum([g[i][k] * xs[i][j] for i in range(n)]) / N[k] for j in range(len(xs[0]))] for k in range(K)], [N[k] / n for k in range(K)]


def flat(x, n):
    return [x[i, j] for i in range(n) for j in range(x.shape[1])]


def rows(a, n):
    F = len(a) // n
    return [[a[F * i + j] for j in range(F)] for i in range(n)]


def mstep(c, mu, pi, n):
    m, x = model(c, mu, pi, n)
    K = len(PI[pi])
    m.x = x
    m.n_samples = n
    m.n_features = x.shape[1]
    m.gamma = m.get_responsibilities(m.get_log_bernoullis(x))
    m.get_Neff()
    m.get_mu()
    m.get_pi()
    step_ok(c, m, x, n, K, lambda xs: em(c, xs, MU[mu], PI[pi]))


def step_ok(c, m, x, n, K, want):
    v = flat(x, n)

    def get(*a):
        return want(rows(a, n))
    for k in range(K):
        c.check('weights are the mean responsibilities', c.close(m.pi[k], c.tab(lambda *a: float(get(*a)[1][k]), *v)))
        for j in range(x.shape[1]):
            c.check('means are weighted by responsibility', c.close(m.mu[k, j], c.tab(lambda *a: float(get(*a)[0][k][j]), *v)))


class Rng:
    def __init__(self, start):
        self.start = start

    def uniform(self, low=0.0, high=1.0, size=None):
        return np.array(self.start)


def fit(c, mu, steps, n, fixed=0):
    b = c.mod('inference.bmm')
    K = len(MU[mu])
    m = b.BMM(K, steps)
    x = data(c, n, len(MU[mu][0]), fixed)
    c.patch(b.np.random, 'RandomState', lambda *a: Rng(MU[mu]))
    m.fit(x)
    c.unpatch()
    fitted(c, m, mu, steps, x, n)


def fitted(c, m, mu, steps, x, n):
    K = len(MU[mu])
    start = [[v / sum(r) for v in r] for r in MU[mu]]

    def want(xs):
        p = (start, [1 / K] * K)
        for _ in range(steps):
            p = em(c, xs, *p)
        return p
    step_ok(c, m, x, n, K, want)
    v = flat(x, n)

    def ll(*a):
        xs = rows(a, n)
        p = want(xs)
        return float(np.mean([post(q, *p)[1] for q in xs]))

    def before(*a):
        xs = rows(a, n)
        p = (start, [1 / K] * K)
        for _ in range(steps - 1):
            p = em(c, xs, *p)
        return float(np.mean([post(q, *p)[1] for q in xs]))
    c.check('the reported likelihood is that of the fitted model', c.close(m.logL, c.tab(ll, *v)))
    c.check('the previous likelihood is kept', c.close(m.old_logL, c.tab(before, *v)))
    c.check('a step never lowers the likelihood', m.logL >= m.old_logL - 1e-6)


def again(c, mu):
    """fitting anew starts from scratch"""
    b = c.mod('inference.bmm')
    m = b.BMM(len(MU[mu]), 2)
    c.patch(b.np.random, 'RandomState', lambda *a: Rng(MU[mu]))
    m.fit(np.array([[0, 1], [1, 1], [1, 0], [0, 1]]))
    x = data(c, 2)
    m.fit(x)
    c.unpatch()
    fitted(c, m, mu, 2, x, 2)
