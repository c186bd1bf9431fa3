"""Reference semantics of the function approximators."""
import jax
import jax.numpy as jnp
import numpy as onp
import haiku as hk
from copy import deepcopy, copy as shallow
from gymnasium import Space
from gymnasium.spaces import Box, Discrete
from collections import namedtuple
from inspect import signature

from coax._core.base_stochastic_func_type1 import BaseStochasticFuncType1
from coax._core.base_stochastic_func_type2 import BaseStochasticFuncType2
from coax.proba_dists import ProbaDist, DiscretizedIntervalDist, EmpiricalQuantileDist
from coax.utils import default_preprocessor, batch_to_single, jit, is_stochastic
from coax.value_transforms import ValueTransform


# ------------------------------------------------------------------ parameters, state, randomness
def interpolate(old, new, tau):
    return jax.tree_map(lambda a, b: (1 - tau) * a + tau * b, old, new)


def soft_update(self, other, tau):
    if not isinstance(other, self.__class__):
        raise TypeError
    self.params = jit(interpolate)(self.params, other.params, tau)
    self.function_state = jit(interpolate)(self.function_state, other.function_state, tau)


def same_structure(a, b):
    return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b)


class BaseFunc:
    @property
    def params(self):
        return self._params

    @params.setter
    def params(self, new_params):
        if not same_structure(new_params, self._params):
            raise TypeError
        self._params = new_params

    @property
    def function_state(self):
        return self._function_state

    @function_state.setter
    def function_state(self, new_function_state):
        if not same_structure(new_function_state, self._function_state):
            raise TypeError
        self._function_state = new_function_state

    def copy(self, deep=False):
        return deepcopy(self) if deep else shallow(self)

    @property
    def random_seed(self):
        return self._random_seed

    @random_seed.setter
    def random_seed(self, new_random_seed):
        if new_random_seed is None:
            new_random_seed = onp.random.randint(2147483647)
        self._random_seed = new_random_seed
        self._random_key = jax.random.PRNGKey(new_random_seed)

    @property
    def rng(self):
        keys = jax.random.split(self._random_key)
        self._random_key = keys[0]
        return keys[1]


# --------------------------------------------------------------------------------- constructors
def transform(value_transform):
    if value_transform is None:
        return ValueTransform(lambda x: x, lambda x: x)
    if not isinstance(value_transform, ValueTransform):
        return ValueTransform(*value_transform)
    return value_transform


def obs(env, f):
    return default_preprocessor(env.observation_space) if f is None else f


def act(env, f):
    return default_preprocessor(env.action_space) if f is None else f


def arity(func):
    return 1 if tuple(signature(func).parameters) == ('S', 'A', 'is_training') else 2


def seed(self, random_seed):
    if random_seed is None:
        random_seed = onp.random.randint(2147483647)
    self._random_seed = random_seed


def must_be_array_like(actual, expected):
    if not isinstance(actual, jnp.ndarray):
        raise TypeError
    if not jnp.issubdtype(actual.dtype, jnp.floating):
        raise TypeError
    if actual.shape != expected.shape:
        raise TypeError


def must_be_tree_like(actual, expected):
    want, structure = jax.tree_util.tree_flatten(expected)
    got, got_structure = jax.tree_util.tree_flatten(actual)
    assert all(isinstance(x, jnp.ndarray) for x in want)
    if got_structure != structure:
        raise TypeError
    if not all(isinstance(x, jnp.ndarray) for x in got):
        raise TypeError
    if not all(a.shape == b.shape for a, b in zip(got, want)):
        raise TypeError


def names(func):
    return tuple(signature(func).parameters)


def must_be_type2(func):
    if names(func) != ('S', 'is_training'):
        raise TypeError


def must_be_type1_or_2(func, env):
    if names(func) == ('S', 'A', 'is_training'):
        return
    if names(func) != ('S', 'is_training'):
        raise TypeError
    if not isinstance(env.action_space, Discrete):
        raise TypeError


def must_have_spaces(env, action=True):
    if not isinstance(env.observation_space, Space):
        raise TypeError
    if action and not isinstance(env.action_space, Space):
        raise TypeError


def initialise(self, func, data, check):
    """initial parameters and state are those of the given function on example inputs that went
    through the preprocessors; its output is checked against the example output"""
    f = hk.transform_with_state(func)
    self._function = jit(f.apply, static_argnums=tuple(
        i + 3 for i in data.inputs.static_argnums))
    self._params, self._function_state = f.init(self.rng, *data.inputs.args)
    out, _ = self._function(self._params, self._function_state, self.rng, *data.inputs.args)
    check(out, data.output)


def of_type(func, data):
    return data.type1 if arity(func) == 1 else data.type2


Spaces = namedtuple('Env', ('observation_space', 'action_space'))
States = namedtuple('Env', ('observation_space',))


def initialise_q(self, func, env, check=must_be_array_like):
    must_have_spaces(env)
    must_be_type1_or_2(func, env)
    initialise(self, func, of_type(func, self.example_data(
        env=Spaces(env.observation_space, env.action_space),
        observation_preprocessor=self.observation_preprocessor,
        action_preprocessor=self.action_preprocessor, batch_size=1,
        random_seed=self.random_seed)), check)


def initialise_model(self, func, env):
    initialise_q(self, func, env, must_be_tree_like)


def initialise_v(self, func, env):
    must_have_spaces(env, False)
    must_be_type2(func)
    initialise(self, func, self.example_data(
        env=States(env.observation_space), random_seed=self.random_seed, batch_size=1,
        observation_preprocessor=self.observation_preprocessor), must_be_array_like)


def initialise_stochastic_type1(self, func, env):
    must_have_spaces(env)
    must_be_type1_or_2(func, env)
    initialise(self, func, of_type(func, BaseStochasticFuncType1.example_data(
        env=Spaces(env.observation_space, env.action_space),
        observation_preprocessor=self.observation_preprocessor,
        action_preprocessor=self.action_preprocessor, proba_dist=self.proba_dist,
        random_seed=self.random_seed)), must_be_tree_like)


def initialise_stochastic_type2(self, func, env):
    must_have_spaces(env)
    must_be_type2(func)
    initialise(self, func, BaseStochasticFuncType2.example_data(
        env=Spaces(env.observation_space, env.action_space),
        observation_preprocessor=self.observation_preprocessor, proba_dist=self.proba_dist,
        random_seed=self.random_seed), must_be_tree_like)


def init_q(self, func, env, observation_preprocessor=None, action_preprocessor=None,
           value_transform=None, random_seed=None):
    seed(self, random_seed)
    self.observation_preprocessor = obs(env, observation_preprocessor)
    self.action_preprocessor = act(env, action_preprocessor)
    self.value_transform = transform(value_transform)
    self.observation_space = env.observation_space
    self._modeltype = arity(func)
    self.action_space = env.action_space
    initialise_q(self, func, env)


def init_v(self, func, env, observation_preprocessor=None, value_transform=None,
           random_seed=None):
    seed(self, random_seed)
    self.observation_preprocessor = obs(env, observation_preprocessor)
    self.value_transform = transform(value_transform)
    self.observation_space = env.observation_space
    initialise_v(self, func, env)


def init_policy(self, func, env, observation_preprocessor=None, proba_dist=None,
                random_seed=None):
    seed(self, random_seed)
    self.observation_preprocessor = obs(env, observation_preprocessor)
    self.proba_dist = ProbaDist(env.action_space) if proba_dist is None else proba_dist
    self.observation_space = env.observation_space
    self.action_space = env.action_space
    initialise_stochastic_type2(self, func, env)


def init_model(self, func, env, observation_preprocessor=None, observation_postprocessor=None,
               action_preprocessor=None, random_seed=None):
    seed(self, random_seed)
    self.observation_preprocessor = observation_preprocessor
    if observation_preprocessor is None:
        self.observation_preprocessor = ProbaDist(env.observation_space).preprocess_variate
    self.observation_postprocessor = observation_postprocessor
    if observation_postprocessor is None:
        self.observation_postprocessor = ProbaDist(env.observation_space).postprocess_variate
    self.action_preprocessor = act(env, action_preprocessor)
    self.observation_space = env.observation_space
    self._modeltype = arity(func)
    self.action_space = env.action_space
    initialise_model(self, func, env)


def init_stochastic_model(self, func, env, observation_preprocessor=None,
                          action_preprocessor=None, proba_dist=None, random_seed=None):
    seed(self, random_seed)
    self.proba_dist = ProbaDist(env.observation_space) if proba_dist is None else proba_dist
    self.observation_preprocessor = observation_preprocessor
    if observation_preprocessor is None:
        self.observation_preprocessor = self.proba_dist.preprocess_variate
    self.action_preprocessor = act(env, action_preprocessor)
    self.observation_space = env.observation_space
    self._modeltype = arity(func)
    self.action_space = env.action_space
    initialise_stochastic_type1(self, func, env)


def value_dist(value_range, value_transform, num_bins):
    if value_transform is not None:
        f, _ = value_transform
        value_range = float(f(value_range[0])), float(f(value_range[1]))
    return DiscretizedIntervalDist(Box(*value_range, shape=()), num_bins)


def init_stochastic_q(self, func, env, value_range=None, num_bins=51,
                      observation_preprocessor=None, action_preprocessor=None,
                      value_transform=None, random_seed=None):
    seed(self, random_seed)
    if value_range is None:
        self.proba_dist = EmpiricalQuantileDist(num_quantiles=num_bins)
    else:
        self.proba_dist = value_dist(value_range, value_transform, num_bins)
    self.observation_preprocessor = obs(env, observation_preprocessor)
    self.action_preprocessor = act(env, action_preprocessor)
    self.value_transform = transform(value_transform)
    self.observation_space = env.observation_space
    self._modeltype = arity(func)
    self.action_space = env.action_space
    initialise_stochastic_type1(self, func, env)


def init_stochastic_r(self, func, env, value_range=None, num_bins=51,
                      observation_preprocessor=None, action_preprocessor=None,
                      value_transform=None, random_seed=None):
    init_stochastic_q(self, func, env, value_range or env.reward_range, num_bins,
                      observation_preprocessor, action_preprocessor, value_transform, random_seed)


def must_be_range(value_range):
    if not (isinstance(value_range, (tuple, list)) and len(value_range) == 2
            and isinstance(value_range[0], (int, float))
            and isinstance(value_range[1], (int, float)) and value_range[0] < value_range[1]):
        raise TypeError


def init_stochastic_v(self, func, env, value_range, num_bins=51, observation_preprocessor=None,
                      value_transform=None, random_seed=None):
    seed(self, random_seed)
    must_be_range(value_range)
    value_range = float(value_range[0]), float(value_range[1])
    self.value_range = value_range
    self.proba_dist = value_dist(value_range, value_transform, num_bins)
    self.observation_preprocessor = obs(env, observation_preprocessor)
    self.value_transform = transform(value_transform)
    self.observation_space = env.observation_space
    self.action_space = env.action_space
    initialise_stochastic_type2(self, func, env)


# ------------------------------------------------------------- type-1 / type-2 function adapters
def expand_actions(self, S, rngs):
    """every state paired with every action"""
    n = self.action_space.n
    batch_size = jax.tree_util.tree_leaves(S)[0].shape[0]
    S_rep = jax.tree_map(lambda x: jnp.repeat(x, n, axis=0), S)
    A_rep = self.action_preprocessor(next(rngs), jnp.tile(jnp.arange(n), batch_size))
    return S_rep, A_rep


def select_action(self, A):
    def f(leaf):
        assert isinstance(leaf, jnp.ndarray)
        assert leaf.ndim >= 2
        assert leaf.shape[0] == A.shape[0]
        assert leaf.shape[1] == A.shape[1]
        return jax.vmap(jnp.dot)(jnp.moveaxis(leaf, 1, -1), A)
    return f


class Q:
    @property
    def function(self):
        return self._function

    @property
    def modeltype(self):
        return self._modeltype

    @property
    def function_type1(self):
        if self.modeltype == 1:
            return self.function
        assert isinstance(self.action_space, Discrete)

        def f(params, state, rng, S, A, is_training):
            assert A.ndim == 2
            assert A.shape[1] == self.action_space.n
            Q_s, state_new = self.function(params, state, rng, S, is_training)
            return jax.vmap(jnp.dot)(A, Q_s), state_new
        return f

    @property
    def function_type2(self):
        if self.modeltype == 2:
            return self.function
        if not isinstance(self.action_space, Discrete):
            raise ValueError

        def f(params, state, rng, S, is_training):
            rngs = hk.PRNGSequence(rng)
            S_rep, A_rep = expand_actions(self, S, rngs)
            Q_rep, state_new = self.function(params, state, next(rngs), S_rep, A_rep, is_training)
            return Q_rep.reshape(-1, self.action_space.n), state_new
        return f

    def __call__(self, s, a=None):
        S = self.observation_preprocessor(self.rng, s)
        if a is None:
            X, _ = self.function_type2(self.params, self.function_state, self.rng, S, False)
        else:
            A = self.action_preprocessor(self.rng, a)
            X, _ = self.function_type1(self.params, self.function_state, self.rng, S, A, False)
        return onp.asarray(self.value_transform.inverse_func(X)[0])


class V:
    @property
    def function(self):
        return self._function

    def __call__(self, s):
        S = self.observation_preprocessor(self.rng, s)
        X, _ = self.function(self.params, self.function_state, self.rng, S, False)
        return onp.asarray(self.value_transform.inverse_func(X)[0])


def adapter_type1(self):
    """type-1 view of a vector-valued function of the state"""
    if self.modeltype == 1:
        return self.function
    assert isinstance(self.action_space, Discrete)

    def f(params, state, rng, S, A, is_training):
        assert A.ndim == 2
        assert A.shape[1] == self.action_space.n
        X, state_new = self.function(params, state, rng, S, is_training)
        return jax.tree_map(select_action(self, A), X), state_new
    return f


def adapter_type2(self):
    if self.modeltype == 2:
        return self.function
    if not isinstance(self.action_space, Discrete):
        raise ValueError
    n = self.action_space.n

    def split_actions(leaf):
        assert isinstance(leaf, jnp.ndarray)
        assert leaf.ndim >= 1
        assert leaf.shape[0] % n == 0
        return jnp.reshape(leaf, (-1, n, *leaf.shape[1:]))

    def f(params, state, rng, S, is_training):
        rngs = hk.PRNGSequence(rng)
        S_rep, A_rep = expand_actions(self, S, rngs)
        X_rep, state_new = self.function(params, state, next(rngs), S_rep, A_rep, is_training)
        return jax.tree_map(split_actions, X_rep), state_new
    return f


class TransitionModel:
    @property
    def function_type1(self):
        return adapter_type1(self)

    @property
    def function_type2(self):
        return adapter_type2(self)

    def __call__(self, s, a=None):
        S = self.observation_preprocessor(self.rng, s)
        if a is None:
            X, _ = self.function_type2(self.params, self.function_state, self.rng, S, False)
            X = batch_to_single(X)
            return [self.observation_postprocessor(self.rng, X, index=i)
                    for i in range(self.action_space.n)]
        A = self.action_preprocessor(self.rng, a)
        X, _ = self.function_type1(self.params, self.function_state, self.rng, S, A, False)
        return self.observation_postprocessor(self.rng, X)


def merge_replicas(self, leaf):
    assert isinstance(self.action_space, Discrete)
    assert isinstance(leaf, jnp.ndarray)
    assert leaf.ndim >= 2
    assert leaf.shape[1] == self.action_space.n
    return jnp.reshape(leaf, (-1, *leaf.shape[2:]))


def split_replicas(self, leaf):
    assert isinstance(self.action_space, Discrete)
    assert isinstance(leaf, jnp.ndarray)
    assert leaf.ndim >= 1
    assert leaf.shape[0] % self.action_space.n == 0
    return jnp.reshape(leaf, (-1, self.action_space.n, *leaf.shape[1:]))


def over_actions(self, params, state, rng, S):
    dist_params, _ = self.function_type2(params, state, rng, S, False)
    return jax.tree_map(lambda leaf: merge_replicas(self, leaf), dist_params)


class StochasticType1:
    @property
    def function_type1(self):
        return adapter_type1(self)

    @property
    def function_type2(self):
        return adapter_type2(self)

    @property
    def sample_func_type1(self):
        def f(params, state, rng, S, A):
            rngs = hk.PRNGSequence(rng)
            dist_params, _ = self.function_type1(params, state, next(rngs), S, A, False)
            X = self.proba_dist.sample(dist_params, next(rngs))
            return X, self.proba_dist.log_proba(dist_params, X)
        return jit(f)

    @property
    def sample_func_type2(self):
        def f(params, state, rng, S):
            rngs = hk.PRNGSequence(rng)
            dist_params = over_actions(self, params, state, next(rngs), S)
            X = self.proba_dist.sample(dist_params, next(rngs))
            logP = self.proba_dist.log_proba(dist_params, X)
            return (jax.tree_map(lambda leaf: split_replicas(self, leaf), X),
                    split_replicas(self, logP))
        return jit(f)

    @property
    def mean_func_type1(self):
        def f(params, state, rng, S, A):
            dist_params, _ = self.function_type1(params, state, rng, S, A, False)
            return self.proba_dist.mean(dist_params)
        return jit(f)

    @property
    def mean_func_type2(self):
        def f(params, state, rng, S):
            X = self.proba_dist.mean(over_actions(self, params, state, rng, S))
            return jax.tree_map(lambda leaf: split_replicas(self, leaf), X)
        return jit(f)

    @property
    def mode_func_type1(self):
        def f(params, state, rng, S, A):
            dist_params, _ = self.function_type1(params, state, rng, S, A, False)
            return self.proba_dist.mode(dist_params)
        return jit(f)

    @property
    def mode_func_type2(self):
        def f(params, state, rng, S):
            X = self.proba_dist.mode(over_actions(self, params, state, rng, S))
            return jax.tree_map(lambda leaf: split_replicas(self, leaf), X)
        return jit(f)

    def dist_params(self, s, a=None):
        S = self.observation_preprocessor(self.rng, s)
        if a is None:
            X, _ = self.function_type2(self.params, self.function_state, self.rng, S, False)
            X = batch_to_single(X)
            return [batch_to_single(X, index=i) for i in range(self.action_space.n)]
        A = self.action_preprocessor(self.rng, a)
        X, _ = self.function_type1(self.params, self.function_state, self.rng, S, A, False)
        return batch_to_single(X)


def sample_type1(self, s, a=None):
    S = self.observation_preprocessor(self.rng, s)
    if a is None:
        X, logP = self.sample_func_type2(self.params, self.function_state, self.rng, S)
        X, logP = batch_to_single((X, logP))
        return [self.proba_dist.postprocess_variate(self.rng, X, index=i)
                for i in range(self.action_space.n)], list(logP)
    A = self.action_preprocessor(self.rng, a)
    X, logP = self.sample_func_type1(self.params, self.function_state, self.rng, S, A)
    return self.proba_dist.postprocess_variate(self.rng, X), batch_to_single(logP)


def mean_type1(self, s, a=None):
    S = self.observation_preprocessor(self.rng, s)
    if a is None:
        X = batch_to_single(self.mean_func_type2(self.params, self.function_state, self.rng, S))
        return [self.proba_dist.postprocess_variate(self.rng, X, index=i)
                for i in range(self.action_space.n)]
    A = self.action_preprocessor(self.rng, a)
    X = self.mean_func_type1(self.params, self.function_state, self.rng, S, A)
    return self.proba_dist.postprocess_variate(self.rng, X)


def mode_type1(self, s, a=None):
    S = self.observation_preprocessor(self.rng, s)
    if a is None:
        X = batch_to_single(self.mode_func_type2(self.params, self.function_state, self.rng, S))
        return [self.proba_dist.postprocess_variate(self.rng, X, index=i)
                for i in range(self.action_space.n)]
    A = self.action_preprocessor(self.rng, a)
    X = self.mode_func_type1(self.params, self.function_state, self.rng, S, A)
    return self.proba_dist.postprocess_variate(self.rng, X)


class StochasticTransitionModel:
    def __call__(self, s, a=None, return_logp=False):
        x, logp = sample_type1(self, s, a)
        return (x, logp) if return_logp else x

    def mean(self, s, a=None):
        return mean_type1(self, s, a)

    def mode(self, s, a=None):
        return mode_type1(self, s, a)


class StochasticQ:
    def __call__(self, s, a=None, return_logp=False):
        x, logp = sample_type1(self, s, a)
        x = jax.tree_map(self.value_transform.inverse_func, x)
        return (x, logp) if return_logp else x

    def mean(self, s, a=None):
        return jax.tree_map(self.value_transform.inverse_func, mean_type1(self, s, a))

    def mode(self, s, a=None):
        return jax.tree_map(self.value_transform.inverse_func, mode_type1(self, s, a))

    @property
    def num_bins(self):
        return self.proba_dist.space.n


# ----------------------------------------------------------------- functions of the state only
class StochasticType2:
    @property
    def sample_func(self):
        def f(params, state, rng, S):
            rngs = hk.PRNGSequence(rng)
            dist_params, _ = self.function(params, state, next(rngs), S, False)
            X = self.proba_dist.sample(dist_params, next(rngs))
            return X, self.proba_dist.log_proba(dist_params, X)
        return jit(f)

    @property
    def mean_func(self):
        def f(params, state, rng, S):
            dist_params, _ = self.function(params, state, rng, S, False)
            return self.proba_dist.mean(dist_params)
        return jit(f)

    @property
    def mode_func(self):
        def f(params, state, rng, S):
            dist_params, _ = self.function(params, state, rng, S, False)
            return self.proba_dist.mode(dist_params)
        return jit(f)

    def dist_params(self, s):
        S = self.observation_preprocessor(self.rng, s)
        dist_params, _ = self.function(self.params, self.function_state, self.rng, S, False)
        return batch_to_single(dist_params)


def sample_type2(self, s):
    S = self.observation_preprocessor(self.rng, s)
    X, logP = self.sample_func(self.params, self.function_state, self.rng, S)
    return self.proba_dist.postprocess_variate(self.rng, X), batch_to_single(logP)


def mean_type2(self, s):
    S = self.observation_preprocessor(self.rng, s)
    X = self.mean_func(self.params, self.function_state, self.rng, S)
    return self.proba_dist.postprocess_variate(self.rng, X)


def mode_type2(self, s):
    S = self.observation_preprocessor(self.rng, s)
    X = self.mode_func(self.params, self.function_state, self.rng, S)
    return self.proba_dist.postprocess_variate(self.rng, X)


class Policy:
    def __call__(self, s, return_logp=False):
        x, logp = sample_type2(self, s)
        return (x, logp) if return_logp else x

    def mean(self, s):
        return mean_type2(self, s)

    def mode(self, s):
        return mode_type2(self, s)


class StochasticV:
    def __call__(self, s, return_logp=False):
        x, logp = sample_type2(self, s)
        x = jax.tree_map(self.value_transform.inverse_func, x)
        return (x, logp) if return_logp else x

    def mean(self, s):
        return jax.tree_map(self.value_transform.inverse_func, mean_type2(self, s))

    def mode(self, s):
        return jax.tree_map(self.value_transform.inverse_func, mode_type2(self, s))

    @property
    def num_bins(self):
        return self.proba_dist.space.n
