"""Reference semantics of the replay buffers."""
import random

import jax
import numpy as np

from coax.reward_tracing import TransitionBatch
from coax.utils import SumTree


class SimpleReplayBuffer:
    def __init__(self, capacity, random_seed=None):
        self._capacity = int(capacity)
        random.seed(random_seed)
        self._random_state = random.getstate()
        self._storage = []
        self._index = 0

    @property
    def capacity(self):
        return self._capacity

    def add(self, transition_batch):
        if not isinstance(transition_batch, TransitionBatch):
            raise TypeError('')
        n = transition_batch.batch_size
        # ids count all transitions ever added
        transition_batch.idx = np.arange(self._index, self._index + n)
        self._index = self._index + n
        self._storage.extend(transition_batch.to_singles())
        # evict oldest first, never hold more than capacity
        while len(self._storage) > self._capacity:
            self._storage.pop(0)

    def sample(self, batch_size=32):
        # without replacement, from the buffer's own random stream
        random.setstate(self._random_state)
        transitions = random.sample(self._storage, batch_size)
        self._random_state = random.getstate()
        return jax.tree_util.tree_map(
            lambda *leaves: np.concatenate(leaves, axis=0), *transitions)

    def clear(self):
        self._storage = []
        self._index = 0

    def __len__(self):
        return len(self._storage)

    def __bool__(self):
        return bool(len(self._storage))

    def __iter__(self):
        return iter(self._storage)


class PrioritizedReplayBuffer:
    def __init__(self, capacity, alpha=1.0, beta=1.0, epsilon=1e-4, random_seed=None):
        if not (isinstance(capacity, int) and capacity > 0):
            raise TypeError('')
        if not (isinstance(alpha, (float, int)) and alpha > 0):
            raise TypeError('')
        if not (isinstance(beta, (float, int)) and beta > 0):
            raise TypeError('')
        if not (isinstance(epsilon, (float, int)) and epsilon > 0):
            raise TypeError('')
        self._capacity = int(capacity)
        self._alpha = float(alpha)
        self._beta = float(beta)
        self._epsilon = float(epsilon)
        self._random_seed = random_seed
        self._storage = np.full(shape=(self._capacity,), fill_value=None, dtype='object')
        self._sumtree = SumTree(capacity=self._capacity, random_seed=self._random_seed)
        self._index = 0

    @property
    def capacity(self):
        return self._capacity

    @property
    def alpha(self):
        return self._alpha

    @alpha.setter
    def alpha(self, new_alpha):
        if not (isinstance(new_alpha, (float, int)) and new_alpha > 0):
            raise TypeError('')
        if np.isclose(new_alpha, self._alpha, rtol=0.01):
            return
        # stored priorities are p = x^alpha; re-express them in the new exponent
        self._sumtree.set_values(..., np.where(
            self._sumtree.values <= 0, 0.,
            np.exp(np.log(np.maximum(self._sumtree.values, 1e-15)) * (new_alpha / self._alpha))))
        self._alpha = float(new_alpha)

    @property
    def beta(self):
        return self._beta

    @beta.setter
    def beta(self, new_beta):
        if not (isinstance(new_beta, (float, int)) and new_beta > 0):
            raise TypeError('')
        self._beta = float(new_beta)

    @property
    def epsilon(self):
        return self._epsilon

    @epsilon.setter
    def epsilon(self, new_epsilon):
        if not (isinstance(new_epsilon, (float, int)) and new_epsilon > 0):
            raise TypeError('')
        self._epsilon = float(new_epsilon)

    def add(self, transition_batch, Adv):
        if not isinstance(transition_batch, TransitionBatch):
            raise TypeError('')
        n = transition_batch.batch_size
        transition_batch.idx = self._index + np.arange(n)
        slots = transition_batch.idx % self._capacity       # ring buffer
        self._storage[slots] = list(transition_batch.to_singles())
        self._sumtree.set_values(slots, np.power(np.abs(Adv) + self._epsilon, self._alpha))
        self._index = self._index + n

    def sample(self, batch_size=32):
        idx = self._sumtree.sample(n=batch_size)
        P = self._sumtree.values[idx] / self._sumtree.root_value
        W = np.power(P * min(self._capacity, self._index), -self._beta)
        batch = jax.tree_util.tree_map(
            lambda *leaves: np.concatenate(leaves, axis=0), *self._storage[idx])
        batch.W *= W / W.max()
        return batch

    def update(self, idx, Adv):
        idx = np.asarray(idx, dtype='int32')
        Adv = np.asarray(Adv, dtype='float32')
        slots = idx % self._capacity
        # only transitions that are still in the buffer get a new priority
        self._sumtree.set_values(slots, np.where(
            stored_id(self._storage[slots]) == idx,
            np.power(np.abs(Adv) + self._epsilon, self._alpha),
            self._sumtree.values[slots]))

    def clear(self):
        self._storage = np.full(shape=(self._capacity,), fill_value=None, dtype='object')
        self._sumtree = SumTree(capacity=self._capacity, random_seed=self._random_seed)
        self._index = 0

    def __len__(self):
        return min(self._capacity, self._index)

    def __bool__(self):
        return bool(min(self._capacity, self._index))

    def __iter__(self):
        return iter(self._storage[:min(self._capacity, self._index)])


@np.vectorize
def stored_id(transition):
    return transition.idx
