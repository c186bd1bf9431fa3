"""Reference semantics of the array, tree, preprocessing and serialisation helpers."""
import os
from collections import deque
from copy import copy as shallow_copy, deepcopy
from functools import partial
from inspect import signature

import chex
import cloudpickle
import gymnasium
import haiku as hk
import jax
import jax.numpy as jnp
import lz4.frame
import numpy as onp
from scipy.linalg import pascal

from coax._core.policy import Policy
from coax._core.q import Q
from coax._core.reward_function import RewardFunction
from coax._core.stochastic_q import StochasticQ
from coax._core.stochastic_reward_function import StochasticRewardFunction
from coax._core.stochastic_transition_model import StochasticTransitionModel
from coax._core.stochastic_v import StochasticV
from coax._core.successor_state_q import SuccessorStateQ
from coax._core.transition_model import TransitionModel
from coax._core.v import V
from coax._core.value_based_policy import BoltzmannPolicy, EpsilonGreedy
from coax.reward_tracing import TransitionBatch


# ------------------------------------------------------------------------------------ arrays
def argmax(rng, arr, axis=-1):
    if not isinstance(arr, jnp.ndarray):
        arr = jnp.asarray(arr)
    largest = arr == jnp.max(arr, axis=axis, keepdims=True)
    return jax.random.categorical(rng, jnp.moveaxis((2 * largest - 1) * 50., axis, -1))


def argmin(rng, arr, axis=-1):
    return argmax(rng, -arr, axis=axis)


def clipped_logit(x, epsilon=1e-15):
    return jnp.log(jnp.clip(x, epsilon, 1)) - jnp.log(jnp.clip(1 - x, epsilon, 1))


def double_relu(arr):
    return jnp.concatenate((-jax.nn.relu(-arr), jax.nn.relu(arr)), axis=-1)


def isscalar(num):
    return jnp.isscalar(num) or (
        isinstance(num, (jnp.ndarray, onp.ndarray)) and jnp.size(num) == 1)


def diff_transform_matrix(num_frames, dtype='float32'):
    assert isinstance(num_frames, int) and num_frames >= 1
    signs = jnp.diag(jnp.power(-1, jnp.arange(num_frames)))
    m = signs.dot(pascal(num_frames, kind='upper'))[::-1, ::-1]
    return m.astype(dtype)


def diff_transform(X, dtype='float32'):
    return jnp.dot(X, diff_transform_matrix(num_frames=X.shape[-1]))


def quantiles_uniform(rng, batch_size, num_quantiles=32):
    u = jax.random.uniform(rng, shape=(batch_size, num_quantiles))
    return jnp.cumsum(u / jnp.sum(u, axis=-1, keepdims=True), axis=-1)


def quantiles(batch_size, num_quantiles=200):
    fractions = jnp.arange(num_quantiles, dtype=jnp.float32) / num_quantiles
    return jnp.tile(fractions[None, :], [batch_size, 1])


def quantile_cos_embedding(quantile_fractions, n=64):
    tiled = jnp.tile(quantile_fractions[..., None], [1] * quantile_fractions.ndim + [n])
    return jnp.cos(jnp.arange(1, n + 1, 1) * onp.pi * tiled)


# ------------------------------------------------------------------------------------- trees
def batch_to_single(pytree, index=0):
    return jax.tree_util.tree_map(lambda x: x[index], pytree)


def single_to_batch(pytree):
    return jax.tree_util.tree_map(lambda x: jnp.expand_dims(x, axis=0), pytree)


def stack_trees(*trees):
    return jax.tree_util.tree_map(lambda *args: jnp.stack(args), *zip(*trees))


def tree_ravel(pytree):
    return jnp.concatenate([jnp.ravel(x) for x in jax.tree_util.tree_leaves(pytree)])


def leaf_diagnostics(leaf, key_prefix):
    return {f'{key_prefix}max': jnp.max(jnp.abs(leaf)),
            f'{key_prefix}norm': jnp.linalg.norm(jnp.ravel(leaf))}


def get_grads_diagnostics(grads, key_prefix='', keep_tree_structure=False):
    if keep_tree_structure:
        return jax.tree_util.tree_map(lambda g: leaf_diagnostics(g, key_prefix), grads)
    return leaf_diagnostics(tree_ravel(grads), key_prefix)


def merge_dicts(*dicts):
    merged = {}
    for d in dicts:
        merged.update(d)
    return merged


def chunks_pow2(transition_batch):
    def leafslice(start, stop):
        def func(leaf):
            if leaf is None:
                return None
            return leaf[start:stop]
        return func

    binary = bin(transition_batch.batch_size).replace('0b', '')
    start = 0
    for i, b in enumerate(binary, 1):
        if b == '0':
            continue
        stop = start + 2 ** (len(binary) - i)
        yield jax.tree_util.tree_map(leafslice(start, stop), transition_batch)
        start = stop


def unvectorize(f, in_axes=0, out_axes=0):
    def f_single(*args):
        in_axes_ = in_axes
        if in_axes is None or isinstance(in_axes, int):
            in_axes_ = (in_axes,) * len(args)
        if len(args) != len(in_axes_):
            raise ValueError
        vargs = [arg if axis is None else jax.tree_util.tree_map(
            partial(jnp.expand_dims, axis=axis), arg) for arg, axis in zip(args, in_axes_)]
        out = f(*vargs)
        out_axes_ = out_axes
        if isinstance(out, tuple):
            if out_axes_ is None or isinstance(out_axes_, int):
                out_axes_ = (out_axes_,) * len(out)
            if len(out) != len(out_axes_):
                raise ValueError
            out = tuple(x if axis is None else jax.tree_util.tree_map(
                partial(jnp.squeeze, axis=axis), x) for x, axis in zip(out, out_axes_))
        elif out_axes_ is not None:
            if not isinstance(out_axes_, int):
                raise TypeError
            out = jax.tree_util.tree_map(partial(jnp.squeeze, axis=out_axes), out)
        return out
    return f_single


# ----------------------------------------------------------------------------- preprocessing
def default_preprocessor(space):
    if not isinstance(space, gymnasium.Space):
        raise TypeError
    if isinstance(space, gymnasium.spaces.Discrete):
        def func(rng, X):
            return jnp.reshape(jax.nn.one_hot(jnp.asarray(X), space.n), (-1, space.n))
    elif isinstance(space, gymnasium.spaces.Box):
        def func(rng, X):
            X = jnp.asarray(X, dtype=space.dtype)
            X = jnp.reshape(X, (-1, *space.shape))
            return jnp.clip(X, space.low, space.high)
    elif isinstance(space, gymnasium.spaces.MultiDiscrete):
        def func(rng, X):
            rngs = jax.random.split(rng, len(space.nvec))
            chex.assert_rank(X, {1, 2})
            if X.ndim == 1:
                X = jnp.expand_dims(X, axis=0)
            return [
                default_preprocessor(gymnasium.spaces.Discrete(n))(key, X[:, i])
                for i, (n, key) in enumerate(zip(space.nvec, rngs))]
    elif isinstance(space, gymnasium.spaces.MultiBinary):
        def func(rng, X):
            X = jnp.asarray(X, dtype=jnp.float32)
            return jnp.reshape(X, (-1, space.n))
    elif isinstance(space, gymnasium.spaces.Tuple):
        def func(rng, X):
            rngs = hk.PRNGSequence(rng)
            return tuple(
                default_preprocessor(sp)(next(rngs), X[i]) for i, sp in enumerate(space.spaces))
    elif isinstance(space, gymnasium.spaces.Dict):
        def func(rng, X):
            rngs = hk.PRNGSequence(rng)
            return {
                k: default_preprocessor(sp)(next(rngs), X[k]) for k, sp in space.spaces.items()}
    else:
        raise TypeError
    return func


# --------------------------------------------------------------------- schedules and averages
class StepwiseLinearFunction:
    def __call__(self, timestep):
        mask = self._offsets <= timestep
        if not onp.any(mask):
            return self._start_value
        if onp.all(mask):
            return self._final_value
        i = onp.max(self._index[mask])
        return self._intercepts[i] + self._slopes[i] * (timestep - self._offsets[i])


def init_stepwise(self, *steps):
    if len(steps) < 2:
        raise TypeError
    if not all(isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], int)
               and isinstance(s[1], (float, int)) for s in steps):
        raise TypeError
    if not all(t1 < t2 for (t1, _), (t2, _) in zip(steps, steps[1:])):
        raise ValueError
    self._start_value = float(steps[0][1])
    self._final_value = float(steps[-1][1])
    self._offsets = onp.array([t for t, _ in steps])
    self._intercepts = onp.array([v for _, v in steps])
    self._index = onp.arange(len(steps))
    self._slopes = onp.array([
        (v_next - v) / (t_next - t) for (t, v), (t_next, v_next) in zip(steps, steps[1:])])


class RollingAverage:
    @property
    def value(self):
        return self._value

    def update(self, observed_value):
        if len(self._deque) == self._deque.maxlen:
            self._value += (observed_value - self._deque.popleft()) / self._deque.maxlen
            self._deque.append(observed_value)
        else:
            self._deque.append(observed_value)
            self._value += (observed_value - self._value) / len(self._deque)
        return self._value


def init_rolling(self, n=100):
    self._value = 0.
    self._deque = deque(maxlen=n)


class ExponentialAverage:
    @property
    def value(self):
        return self._value

    def update(self, observed_value):
        if self._len < self._maxlen:
            self._len += 1
        self._value += (observed_value - self._value) / self._len
        return self._value


def init_exponential(self, n=100):
    self._value = 0.
    self._len = 0
    self._maxlen = n


class OrnsteinUhlenbeckNoise:
    def reset(self):
        self._noise = None

    def __call__(self, a):
        a = onp.asarray(a)
        if self._noise is None:
            self._noise = onp.ones_like(a) * self.mu
        white_noise = onp.asarray(self.rnd.randn(*a.shape), dtype=a.dtype)
        noise = self._noise + self.theta * (self.mu - self._noise) + self.sigma * white_noise
        self._noise = onp.clip(noise, self.min_value, self.max_value)
        return a + self._noise


def init_noise(self, mu=0., sigma=1., theta=0.15, min_value=None, max_value=None,
               random_seed=None):
    self.mu = mu
    self.theta = theta
    self.sigma = sigma
    self.min_value = -1e15 if min_value is None else min_value
    self.max_value = 1e15 if max_value is None else max_value
    self.random_seed = random_seed
    self.rnd = onp.random.RandomState(random_seed)
    self._noise = None


# ---------------------------------------------------------------------------- kinds of objects
def is_transition_model(obj):
    return isinstance(obj, (TransitionModel, StochasticTransitionModel))


def is_reward_function(obj):
    return isinstance(obj, (RewardFunction, StochasticRewardFunction))


def is_vfunction(obj):
    return isinstance(obj, (V, StochasticV))


def is_qfunction(obj):
    return isinstance(obj, (Q, StochasticQ, SuccessorStateQ))


def is_stochastic(obj):
    return isinstance(obj, (Policy, StochasticV, StochasticQ, StochasticRewardFunction,
                            StochasticTransitionModel))


def is_policy(obj):
    return isinstance(obj, (Policy, EpsilonGreedy, BoltzmannPolicy))


def has_env_attr(env, attr, max_depth=100):
    e = env
    for i in range(max_depth):
        if hasattr(e, attr):
            return True
        if not hasattr(e, 'env'):
            break
        e = e.env
    return False


def get_env_attr(env, attr, default='__ERROR__', max_depth=100):
    e = env
    for i in range(max_depth):
        if hasattr(e, attr):
            return getattr(e, attr)
        if not hasattr(e, 'env'):
            break
        e = e.env
    if default == '__ERROR__':
        raise AttributeError
    return default


# ------------------------------------------------------------------------------- serialisation
def dump(obj, filepath):
    dirpath = os.path.dirname(filepath)
    if dirpath:
        os.makedirs(dirpath, exist_ok=True)
    with lz4.frame.open(filepath, 'wb') as f:
        f.write(cloudpickle.dumps(obj))


def dumps(obj):
    return lz4.frame.compress(cloudpickle.dumps(obj))


def load(filepath):
    with lz4.frame.open(filepath, 'rb') as f:
        return cloudpickle.loads(f.read())


def loads(s):
    return cloudpickle.loads(lz4.frame.decompress(s))


class JittedFunc:
    def __getstate__(self):
        return self.func, self.static_argnums, self.donate_argnums

    def __call__(self, *args, **kwargs):
        return self._jitted_func(*args, **kwargs)


def init_jitted(self, func, static_argnums=(), donate_argnums=()):
    self.func = func
    self.static_argnums = static_argnums
    self.donate_argnums = donate_argnums
    self._jitted_func = jax.jit(
        func, static_argnums=static_argnums, donate_argnums=donate_argnums)


def setstate_jitted(self, state):
    self.func, self.static_argnums, self.donate_argnums = state
    self._jitted_func = jax.jit(
        self.func, static_argnums=self.static_argnums, donate_argnums=self.donate_argnums)


class CopyMixin:
    def copy(self, deep=False):
        return deepcopy(self) if deep else shallow_copy(self)


class RandomStateMixin:
    @property
    def random_seed(self):
        return self._random_seed

    @property
    def rng(self):
        self._random_key, key = jax.random.split(self._random_key)
        return key


def seed_setter(self, new_random_seed):
    if new_random_seed is None:
        new_random_seed = onp.random.randint(2147483647)
    self._random_seed = new_random_seed
    self._random_key = jax.random.PRNGKey(new_random_seed)
