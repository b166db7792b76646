"""Model of the growable arrays of cyarray.carray (append order preserving, C float storage)."""
import numpy as np


class _Arr(object):
    dt = np.float64

    def __init__(self, n=0):
        self.vals = [self.dt(0)] * n

    def c_append(self, x):
        self.vals.append(x)

    def append(self, x):
        self.vals.append(x)

    def get_npy_array(self):
        return np.array(self.vals, dtype=self.dt)

    def c_get(self, i):
        return self.vals[i]

    def size(self):
        return len(self.vals)

    def __len__(self):
        return len(self.vals)


class FloatArray(_Arr):
    dt = np.float32


class DoubleArray(_Arr):
    dt = np.float64


class IntArray(_Arr):
    dt = np.int32


class UIntArray(_Arr):
    dt = np.uint32


class LongArray(_Arr):
    dt = np.int64
