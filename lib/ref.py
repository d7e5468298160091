"""Independent reference formulas (written from the documentation and textbooks, numpy only, no acoular code)."""
import numpy as np


def window(name, n):
    k = np.arange(n)
    x = k / (n - 1) if n > 1 else np.zeros(1)
    if name == 'Rectangular':
        return np.ones(n)
    if n == 1:
        return np.ones(1)
    if name == 'Hanning':
        return 0.5 - 0.5 * np.cos(2 * np.pi * x)
    if name == 'Hamming':
        return 0.54 - 0.46 * np.cos(2 * np.pi * x)
    if name == 'Blackman':
        return 0.42 - 0.5 * np.cos(2 * np.pi * x) + 0.08 * np.cos(4 * np.pi * x)
    if name == 'Bartlett':
        return 1 - np.abs(2 * x - 1)
    raise ValueError(name)


WINDOWS = ('Rectangular', 'Hanning', 'Hamming', 'Bartlett', 'Blackman')
OVERLAPS = {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}


def snapshots(x, bs, overlap):
    """All complete blocks (start positions k*bs/overlap) as array (blocks, bs, channels)."""
    hop = bs / OVERLAPS[overlap]
    n = len(x)
    out = []
    k = 0
    while k * hop + bs <= n:
        out.append(x[int(k * hop):int(k * hop) + bs])
        k += 1
    return np.array(out) if out else np.zeros((0, bs, x.shape[1]))


def dft(blocks, w):
    return np.fft.rfft(blocks * w[None, :, None], axis=1)


def csm(x, bs, win='Rectangular', overlap='None'):
    w = window(win, bs)
    b = snapshots(np.asarray(x, float), bs, overlap)
    if not len(b):
        return np.zeros((bs // 2 + 1, x.shape[1], x.shape[1]), complex), 0
    X = dft(b, w)
    c = np.einsum('bfi,bfj->fij', X, X.conj())
    return c * 2.0 / bs / (w @ w) / len(b), len(b)
