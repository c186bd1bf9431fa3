"""Reference semantics of the reward tracers and of TransitionBatch.

Each class mirrors a public class of coax; every method below is the *definition* that the
repository's method of the same name has to be equivalent to (same returned value, same
effect on the tracer) for every tracer state and every argument.
"""
from collections import deque

import jax
import numpy as np

from coax._base.errors import InsufficientCacheError, EpisodeDoneError
from coax.reward_tracing import TransitionBatch


class NStep:
    def __init__(self, n, gamma, record_extra_info=False):
        self.n = int(n)
        self.gamma = float(gamma)
        self.record_extra_info = record_extra_info
        self._deque_s = deque([])
        self._deque_r = deque([])
        self._done = False
        self._gammas = np.power(self.gamma, np.arange(self.n))
        self._gamman = np.power(self.gamma, self.n)

    def reset(self):
        # no transition of an earlier episode survives; discount factors follow (n, gamma)
        self._deque_s = deque([])
        self._deque_r = deque([])
        self._done = False
        self._gammas = np.power(self.gamma, np.arange(self.n))
        self._gamman = np.power(self.gamma, self.n)

    def add(self, s, a, r, done, logp=0.0, w=1.0):
        if len(self._deque_s) > 0 and self._done:
            raise EpisodeDoneError('')
        self._deque_s.append((s, a, logp, w))
        self._deque_r.append(r)
        self._done = bool(done)

    def __len__(self):
        return len(self._deque_s)

    def __bool__(self):
        return len(self._deque_s) > 0 and (self._done or len(self._deque_s) > self.n)

    def pop(self):
        if not (len(self._deque_s) > 0 and (self._done or len(self._deque_s) > self.n)):
            raise InsufficientCacheError('')
        # n-step return: sum of the first min(n, #cached) rewards, discounted
        rn = sum(g * r for g, r in list(zip(self._gammas, self._deque_r))[:self.n])
        s, a, logp, w = self._deque_s.popleft()
        r = self._deque_r.popleft()
        if len(self._deque_s) >= self.n:
            # bootstrap n steps ahead
            s_next, a_next, logp_next = self._deque_s[self.n - 1][:3]
            done = False
        else:
            # the episode ended within n steps: no bootstrapping
            s_next, a_next, logp_next = s, a, logp
            done = True
        extra_info = None
        if self.record_extra_info:
            extra_info = step_info(self, s, a, r, len(self._deque_s) == 0, logp, w)
        return TransitionBatch.from_single(
            s=s, a=a, logp=logp, r=rn, done=done, gamma=self._gamman,
            s_next=s_next, a_next=a_next, logp_next=logp_next, w=w, extra_info=extra_info)


def step_info(self, s, a, r, done, logp, w):
    """slot i of every field holds the i-th transition after the popped one (slot 0 is the popped
    transition itself); past the cached part the last transition is repeated, flagged done"""
    states, actions, rewards, dones, log_props, weights = [], [], [], [], [], []
    s_, a_, r_, d_, l_, w_ = s, a, r, done, logp, w
    for i in range(self.n + 1):
        states.append(s_)
        actions.append(a_)
        rewards.append(r_)
        dones.append(d_)
        log_props.append(l_)
        weights.append(w_)
        if i < len(self._deque_s):
            s_, a_, l_, w_ = self._deque_s[i]
            r_ = self._deque_r[i]
            d_ = True if (done or (i == len(self._deque_s) - 1 and self._done)) else False
        else:
            d_ = True
    return {'states': tuple(states), 'actions': tuple(actions), 'rewards': tuple(rewards),
            'dones': tuple(dones), 'log_props': tuple(log_props), 'weights': tuple(weights)}


class MonteCarlo:
    def __init__(self, gamma):
        self.gamma = float(gamma)
        self._list = []
        self._done = False
        self._g = 0

    def reset(self):
        self._list = []
        self._done = False
        self._g = 0

    def add(self, s, a, r, done, logp=0.0, w=1.0):
        if len(self._list) > 0 and self._done:
            raise EpisodeDoneError('')
        self._list.append((s, a, r, logp, w))
        self._done = bool(done)
        if done:
            self._g = 0.

    def __len__(self):
        return len(self._list)

    def __bool__(self):
        return len(self._list) > 0 and self._done

    def pop(self):
        if not (len(self._list) > 0 and self._done):
            raise InsufficientCacheError('')
        s, a, r, logp, w = self._list.pop()       # last in, first out
        self._g = r + self.gamma * self._g        # full discounted return-to-go
        return TransitionBatch.from_single(
            s=s, a=a, logp=logp, r=self._g, done=True, gamma=self.gamma,
            s_next=s, a_next=a, logp_next=logp, w=w)


def flush(self):
    """pop everything that can be popped, oldest pop first, concatenated along the batch axis"""
    if not self:
        raise InsufficientCacheError('')
    transitions = []
    while self:
        transitions.append(self.pop())
    return jax.tree_util.tree_map(lambda *leaves: np.concatenate(leaves, axis=0), *transitions)
