"""C30 encoding of recorded buffers: every buffer, in order, in as few code words as hold its bits."""
import os
import pickle
import shutil
import tempfile
import numpy as np
from checks.lib import case

BOUNDS = dict(quick='recordings of 0..4 buffers of 0..6 bytes (and one of 40 bytes), every byte symbolic; codes of 8..24 information bits (and 96), lengths below, at, above and at multiples of it',
              thorough='buffers of up to 60 bytes')
ASSUMPTIONS = ['the encoder is a stand-in that records what it is given; the padding is arbitrary']


def cases(tier):
    out = [case('none', 'encode', dict(lens=[], k=16))]
    for k in (8, 16, 20, 24):
        for l in (0, 1, 2, 3, 4, 5, 6):
            out.append(case('one_%d_%d' % (k, l), 'encode', dict(lens=[l], k=k)))
    for lens in ([1, 4], [4, 1], [2, 2], [3, 0, 2], [6, 5, 1, 2], [2, 4, 6, 3]):
        for k in (16, 20):
            out.append(case('many_%s_%d' % ('_'.join(map(str, lens)), k), 'encode', dict(lens=lens, k=k)))
    out.append(case('long', 'encode', dict(lens=[40, 12, 13, 24], k=96)))
    if tier == 'thorough':
        out.append(case('longer', 'encode', dict(lens=[60, 59, 1, 30], k=120)))
        out.append(case('short_code', 'encode', dict(lens=[60, 3], k=7)))
    return out


class Encoder:
    def __init__(self, k):
        self.k = k
        self.n = 2 * k
        self.given = []
        self.words = []

    def encode(self, bits):
        self.given.append(bits)
        self.words.append('word %d' % len(self.given))
        return self.words[-1]


def encode(c, lens, k):
    e = c.mod('runs.HC_eilat_July_2018.ecncoding_data')
    data = [c.bytes('b%d' % i, l) for i, l in enumerate(lens)]
    record = {d: [dict(timestamp=7, bin=bytes([3, 4]))] for d in ('20000', '100000', '200000', '300000')}
    record['50000'] = [dict(timestamp=i, bin=b) for i, b in enumerate(data)]
    c.patch(e.pickle, 'load', lambda *a, **kw: record)
    c.patch(e.pickle, 'loads', lambda *a, **kw: record)
    enc = Encoder(k)
    d = tempfile.mkdtemp()
    old = os.getcwd()
    try:
        os.mkdir(os.path.join(d, 'data'))
        with open(os.path.join(d, 'data', 'hc_to_ship.pickle'), 'wb') as f:
            f.write(pickle.dumps(0))
        os.chdir(d)
        res = e.encode_data(enc)
    finally:
        os.chdir(old)
        shutil.rmtree(d)
        c.unpatch()
    c.check('the code words, in order', list(res) == enc.words)
    at = 0
    for i, l in enumerate(lens):
        words = max(1, -(-8 * l // k))
        c.check('as few code words as needed', len(enc.given) >= at + words)
        bits = []
        for j in range(at, at + words):
            c.check('as many bits as the code takes', len(enc.given[j]) == k)
            bits += list(enc.given[j])
        for q in range(8 * l):
            c.check('the bits of the buffer, in order', c.Iff(bits[q], (data[i][q // 8] >> (7 - q % 8)) & 1 == 1))
        at += words
    c.check('no further code words', len(enc.given) == at)
