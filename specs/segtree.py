"""Reference semantics of the segment trees.

Node layout: level l occupies positions 2^l - 1 .. 2^(l+1) - 2 of one flat array; the children
of the node at (l, i) are (l+1, 2i) and (l+1, 2i+1); the leaves are level height - 1.
"""
import numpy as np


class SegmentTree:
    def __init__(self, capacity, reducer, init_value):
        self.capacity = capacity
        self.reducer = reducer
        self.init_value = float(init_value)
        self._height = int(np.ceil(np.log2(capacity))) + 1
        self._arr = np.full(shape=2 ** self._height - 1, fill_value=self.init_value)

    @property
    def height(self):
        return self._height

    @property
    def root_value(self):
        return self._arr[0]

    @property
    def values(self):
        start = 2 ** (self._height - 1) - 1
        return self._arr[start:start + self.capacity]

    def __getitem__(self, lookup):
        if isinstance(lookup, int):
            offset, size = level_lookup(self, lookup)
            return self._arr[offset:offset + size]
        if isinstance(lookup, tuple) and len(lookup) == 1:
            return self[lookup[0]]
        if isinstance(lookup, tuple) and len(lookup) == 2:
            return self[lookup[0]][lookup[1]]
        raise IndexError('')

    def set_values(self, idx, values):
        idx, offset, size = check_idx(self, idx)
        self._arr[offset + idx % size] = values
        # every ancestor of a changed leaf is recomputed, bottom up
        for level in range(self._height - 2, -1, -1):
            idx = np.unique(idx // 2)
            child = offset + 2 * idx
            offset = 2 ** level - 1
            self._arr[offset + idx] = self.reducer(self._arr[child], self._arr[child + 1])

    def partial_reduce(self, start=0, stop=None):
        i, j = check_range(self, start, stop)
        done = i == j
        if done.all():
            return self._arr[i]
        a, b = self._arr[i], np.where(done, self.init_value, self._arr[j])
        offset = 2 ** (self._height - 1) - 1
        for level in range(self._height - 2, -1, -1):
            up = 2 ** level - 1
            i_parent = (i - offset) // 2 + up
            j_parent = (j - offset) // 2 + up
            done |= i_parent == j_parent
            if done.all():
                return self.reducer(a, b)
            # left boundary: include the right sibling; right boundary: include the left sibling
            a = np.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i + 1]), a)
            b = np.where((j % 2 == 0) & ~done, self.reducer(b, self._arr[j - 1]), b)
            i, j, offset = i_parent, j_parent, up
        assert False


def level_lookup(self, level):
    if not isinstance(level, int):
        raise IndexError('')
    if not -self._height <= level < self._height:
        raise IndexError('')
    level = level % self._height
    return 2 ** level - 1, min(2 ** level, self.capacity)


def check_idx(self, idx):
    offset, size = level_lookup(self, self._height - 1)
    if isinstance(idx, int):
        idx = np.asarray([idx], dtype='int32')
    if idx is None or idx is Ellipsis:
        idx = np.arange(size, dtype='int32')
    elif isinstance(idx, list) and all(isinstance(x, int) for x in idx):
        idx = np.asarray(idx, dtype='int32')
    elif isinstance(idx, np.ndarray) and np.issubdtype(idx.dtype, np.integer) and idx.ndim <= 1:
        idx = idx.reshape(-1)
    else:
        raise IndexError('')
    if not np.all((idx < size) & (idx >= -size)):
        raise IndexError('')
    return idx % size, offset, size


def check_range(self, start, stop):
    if isinstance(start, int):
        start = np.array([start])
    if not (isinstance(start, np.ndarray) and start.ndim == 1
            and np.issubdtype(start.dtype, np.integer)):
        raise TypeError('')
    if stop is None:
        stop = np.full_like(start, self.capacity)
    if isinstance(stop, int):
        stop = np.full_like(start, stop)
    if not (isinstance(stop, np.ndarray) and stop.ndim == 1
            and np.issubdtype(stop.dtype, np.integer)):
        raise TypeError('')
    if start.size == 1 and stop.size > 1:
        start = np.full_like(stop, start[0])
    if start.shape != stop.shape:
        raise ValueError('')
    offset, size = level_lookup(self, self._height - 1)
    i = offset + start % size
    j = offset + (stop - 1) % size
    if not np.all((i >= offset) & (j < offset + size) & (i <= j)):
        raise IndexError('')
    return i, j


class SumTree:
    def __init__(self, capacity, random_seed=None):
        self.capacity = capacity
        self.reducer = np.add
        self.init_value = 0.
        self._height = int(np.ceil(np.log2(capacity))) + 1
        self._arr = np.full(shape=2 ** self._height - 1, fill_value=self.init_value)
        self._rnd = np.random.RandomState(random_seed)
        self._random_seed = random_seed

    def sample(self, n):
        if not (isinstance(n, int) and n > 0):
            raise TypeError('')
        return self.inverse_cdf(self._rnd.rand(n))

    def inverse_cdf(self, u):
        if self._arr[0] <= 0:
            raise RuntimeError('')
        isscalar = False
        if isinstance(u, (float, int)):
            u = np.array([u], dtype='float')
            isscalar = True
        if isinstance(u, list) and all(isinstance(x, (float, int)) for x in u):
            u = np.asarray(u, dtype='float')
        if not (isinstance(u, np.ndarray) and u.ndim == 1
                and np.issubdtype(u.dtype, np.floating)):
            raise TypeError('')
        if np.any(u > 1) or np.any(u < 0):
            raise ValueError('')
        mass = u * self._arr[0]
        idx = np.zeros_like(mass, dtype='int32')
        up = 0
        for level in range(1, self._height):
            offset = 2 ** level - 1
            left = (idx - up) * 2 + offset
            left_mass = self._arr[left]
            idx = np.where(left_mass > mass, left, left + 1)
            mass = np.where(left_mass > mass, mass, mass - left_mass)
            up = offset
        idx = idx - up
        return idx[0] if isscalar else idx


class MinTree:
    def __init__(self, capacity):
        self.capacity = capacity
        self.reducer = np.minimum
        self.init_value = float('inf')
        self._height = int(np.ceil(np.log2(capacity))) + 1
        self._arr = np.full(shape=2 ** self._height - 1, fill_value=self.init_value)


class MaxTree:
    def __init__(self, capacity):
        self.capacity = capacity
        self.reducer = np.maximum
        self.init_value = -float('inf')
        self._height = int(np.ceil(np.log2(capacity))) + 1
        self._arr = np.full(shape=2 ** self._height - 1, fill_value=self.init_value)
