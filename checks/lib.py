"""Shared parts of the harnesses (run under the VM and natively)."""
import numpy as np
from engine import h as H

DIRS = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]


def cells(shape):
    return [(r, c) for r in range(shape[0]) for c in range(shape[1])]


def inside(shape, r, c):
    return 0 <= r < shape[0] and 0 <= c < shape[1]


def is_edge(shape, r, c):
    return r == 0 or c == 0 or r == shape[0] - 1 or c == shape[1] - 1


def neighbours(shape, r, c):
    return [(r + a, c + b) for a, b in DIRS if inside(shape, r + a, c + b)]


def raster(name, cfg, dtype, lo=None, hi=None):
    """symbolic raster: cfg['shape'], or a pattern of rows whose characters are '.' (symbolic), a digit or letter (constant level)"""
    pat = cfg.get('pattern')
    if pat is None:
        return H.reals(name, cfg['shape'], dtype, lo, hi)
    a = np.zeros((len(pat), len(pat[0])), dtype=dtype)
    for r in range(len(pat)):
        for c in range(len(pat[0])):
            ch = pat[r][c]
            if ch == '.':
                a[r, c] = H.real('%s_%d_%d' % (name, r, c), lo, hi)
            else:
                a[r, c] = '0123456789abcdefghij'.index(ch)
    return a


def shape_of(cfg):
    if 'shape' in cfg:
        return tuple(cfg['shape'])
    return len(cfg['pattern']), len(cfg['pattern'][0])
