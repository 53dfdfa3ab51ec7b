"""Stand-ins for the (third-party) channel decoders: an LDPC decoder that returns an arbitrary, solver-chosen outcome."""
import numpy as np
from ldpc.decoder import LogSpaDecoder, WbfDecoder, GalBfDecoder


def make(c, base, n, k, name='ldpc', bits=None, llr_grid=(-3.0, 1.5), soft=None, ok=None):
    """a decoder whose outcome is chosen by the solver: estimate bits, success flag, soft output"""

    class Any(base):
        def __init__(self):
            self.info_idx = np.array([i < k for i in range(n)])
            self.n = n
            self.k = k
            self.h = np.ones((n - k, n), dtype=int)
            self.calls = []
            self.outcomes = []

        def decode(self, word, *a):
            i = len(self.calls)
            self.calls.append((np.array(word), a))
            if bits is None:
                est = c.bits('%s%d' % (name, i), n)
            else:
                est = bits(i)
            good = c.choice('%s%d_ok' % (name, i), [True, False]) if ok is None else ok(i)
            # failed checks are what failure means
            bad = 0 if good else 1
            out = (est, good, 3 + i, np.array([bad] * (n - k), dtype=int), np.array([bad] * n, dtype=int))
            if base is LogSpaDecoder:
                llr = soft(i) if soft else c.reals('%s%d_llr' % (name, i), n, -8.0, 8.0, list(llr_grid))
                out = (est, llr) + out[1:]
            self.outcomes.append(out)
            return out

        def info_bits(self, est):
            return est[self.info_idx]

    return Any()


def logspa(c, n, k, name='ldpc', **kw):
    return make(c, LogSpaDecoder, n, k, name, **kw)


def wbf(c, n, k, name='ldpc', **kw):
    return make(c, WbfDecoder, n, k, name, **kw)


def galbf(c, n, k, name='ldpc', **kw):
    return make(c, GalBfDecoder, n, k, name, **kw)
