"""Reference semantics of random / value-based policies and of the successor-state q-function."""
import chex
import gymnasium
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp

from coax.proba_dists import CategoricalDist
from coax.utils import batch_to_single, is_stochastic, jit


# -------------------------------------------------------------------------------- random policy
class RandomPolicy:
    def __init__(self, env, random_seed=None):
        self.action_space = env.action_space
        self.action_space.seed(random_seed)
        self.random_seed = random_seed

    def __call__(self, s, return_logp=False):
        a = self.action_space.sample()
        if not return_logp:
            return a
        if isinstance(self.action_space, gymnasium.spaces.Discrete):
            return a, -onp.log(self.action_space.n)
        if isinstance(self.action_space, gymnasium.spaces.Box):
            return a, -onp.sum(onp.log(self.action_space.high - self.action_space.low))
        raise NotImplementedError

    def mode(self, s):
        return self.action_space.sample()

    def dist_params(self, s):
        if isinstance(self.action_space, gymnasium.spaces.Discrete):
            return {'logits': jnp.zeros(self.action_space.n)}
        if isinstance(self.action_space, gymnasium.spaces.Box):
            return {'mu': jnp.zeros(self.action_space.shape),
                    'logvar': 15 * jnp.ones(self.action_space.shape)}
        raise NotImplementedError


# --------------------------------------------------------------------------- value-based policies
def action_values(q, params, state, rng, S):
    """(expected) value of every action"""
    rngs = hk.PRNGSequence(rng)
    if is_stochastic(q):
        Q_s = q.mean_func_type2(params['q'], state, next(rngs), S)
        Q_s = q.proba_dist.postprocess_variate(next(rngs), Q_s, batch_mode=True)
    else:
        Q_s, _ = q.function_type2(params['q'], state, next(rngs), S, False)
    chex.assert_rank(Q_s, 2)
    assert Q_s.shape[1] == q.action_space.n
    return Q_s


class ValueBased:
    @property
    def rng(self):
        return self.q.rng

    @property
    def function_state(self):
        return self.q.function_state

    @function_state.setter
    def function_state(self, new_function_state):
        self.q.function_state = new_function_state


def init_epsilon_greedy(self, q, epsilon=0.1):
    self.q = q
    self.epsilon = epsilon
    self.observation_preprocessor = q.observation_preprocessor
    self.action_preprocessor = q.action_preprocessor
    self.proba_dist = CategoricalDist(q.action_space)


def init_boltzmann(self, q, temperature=0.02):
    self.q = q
    self.temperature = temperature
    self.observation_preprocessor = q.observation_preprocessor
    self.action_preprocessor = q.action_preprocessor
    self.proba_dist = CategoricalDist(q.action_space)


def same_structure(a, b):
    return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b)


class EpsilonGreedy:
    @property
    def function(self):
        def f(params, state, rng, S, is_training):
            Q_s = action_values(self.q, params, state, rng, S)
            greedy = (Q_s == Q_s.max(axis=1, keepdims=True)).astype(Q_s.dtype)
            greedy = greedy / greedy.sum(axis=1, keepdims=True)
            p = greedy * (1 - params['epsilon']) + params['epsilon'] / self.q.action_space.n
            return {'logits': jnp.log(p + 1e-15)}, None
        return jit(f, static_argnums=(4,))

    @property
    def params(self):
        return hk.data_structures.to_immutable_dict(
            {'epsilon': self.epsilon, 'q': self.q.params})

    @params.setter
    def params(self, new_params):
        if not same_structure(new_params, self.params):
            raise TypeError
        self.epsilon = new_params['epsilon']
        self.q.params = new_params['q']


class BoltzmannPolicy:
    @property
    def function(self):
        def f(params, state, rng, S, is_training):
            Q_s = action_values(self.q, params, state, rng, S)
            return {'logits': Q_s / params['temperature']}, None
        return jit(f, static_argnums=(4,))

    @property
    def params(self):
        return hk.data_structures.to_immutable_dict(
            {'temperature': self.temperature, 'q': self.q.params})

    @params.setter
    def params(self, new_params):
        if not same_structure(new_params, self.params):
            raise TypeError
        self.temperature = new_params['temperature']
        self.q.params = new_params['q']


# -------------------------------------------------------------------------- successor-state q
def merge(self, leaf):
    assert isinstance(self.action_space, gymnasium.spaces.Discrete)
    assert isinstance(leaf, jnp.ndarray)
    assert leaf.ndim >= 2
    assert leaf.shape[1] == self.action_space.n
    return jnp.reshape(leaf, (-1, *leaf.shape[2:]))


def split(self, leaf):
    assert isinstance(self.action_space, gymnasium.spaces.Discrete)
    assert isinstance(leaf, jnp.ndarray)
    assert leaf.ndim >= 1
    assert leaf.shape[0] % self.action_space.n == 0
    return jnp.reshape(leaf, (-1, self.action_space.n, *leaf.shape[1:]))


def state_value(self, params, state, rngs, S_next, is_training):
    X, state_new = self.v.function(params['v'], state['v'], next(rngs), S_next, is_training)
    if is_stochastic(self.v):
        X = self.v.proba_dist.postprocess_variate(
            next(rngs), self.v.proba_dist.mean(X), batch_mode=True)
    return X, state_new


class SuccessorStateQ:
    @property
    def rng(self):
        return self.v.rng

    @property
    def params(self):
        return hk.data_structures.to_immutable_dict({
            'v': self.v.params, 'p': self.p.params, 'r': self.r.params, 'gamma': self.gamma})

    @property
    def function_state(self):
        return hk.data_structures.to_immutable_dict({
            'v': self.v.function_state, 'p': self.p.function_state, 'r': self.r.function_state})

    @property
    def function_type1(self):
        def f(params, state, rng, S, A, is_training):
            rngs = hk.PRNGSequence(rng)
            new_state = dict(state)
            S_next, new_state['p'] = self.p.function_type1(
                params['p'], state['p'], next(rngs), S, A, is_training)
            if is_stochastic(self.p):
                S_next = self.p.proba_dist.mean(S_next)
            R, new_state['r'] = self.r.function_type1(
                params['r'], state['r'], next(rngs), S, A, is_training)
            if is_stochastic(self.r):
                R = self.r.proba_dist.postprocess_variate(
                    next(rngs), self.r.proba_dist.mean(R), batch_mode=True)
            V, new_state['v'] = state_value(self, params, state, rngs, S_next, is_training)
            f, f_inv = self.value_transform
            Q = f(self.r.value_transform.inverse_func(R) + params['gamma'] * f_inv(V))
            assert Q.ndim == 1
            new_state = hk.data_structures.to_immutable_dict(new_state)
            assert same_structure(new_state, state)
            return Q, new_state
        return jit(f, static_argnums=(5,))

    @property
    def function_type2(self):
        def f(params, state, rng, S, is_training):
            rngs = hk.PRNGSequence(rng)
            new_state = dict(state)
            S_next, new_state['p'] = self.p.function_type2(
                params['p'], state['p'], next(rngs), S, is_training)
            S_next = jax.tree_map(lambda leaf: merge(self, leaf), S_next)
            if is_stochastic(self.p):
                S_next = self.p.proba_dist.mean(S_next)
            R, new_state['r'] = self.r.function_type2(
                params['r'], state['r'], next(rngs), S, is_training)
            R = jax.tree_map(lambda leaf: merge(self, leaf), R)
            if is_stochastic(self.r):
                R = self.r.proba_dist.postprocess_variate(
                    next(rngs), self.r.proba_dist.mean(R), batch_mode=True)
            V, new_state['v'] = state_value(self, params, state, rngs, S_next, is_training)
            f, f_inv = self.value_transform
            Q = f(self.r.value_transform.inverse_func(R) + params['gamma'] * f_inv(V))
            Q = split(self, Q)
            assert Q.ndim == 2
            assert Q.shape[1] == self.action_space.n
            new_state = hk.data_structures.to_immutable_dict(new_state)
            assert same_structure(new_state, state)
            return Q, new_state
        return jit(f, static_argnums=(4,))

    def __call__(self, s, a=None):
        S = self.observation_preprocessor(self.rng, s)
        if a is None:
            X, _ = self.function_type2(self.params, self.function_state, self.rng, S, False)
        else:
            A = self.action_preprocessor(self.rng, a)
            X, _ = self.function_type1(self.params, self.function_state, self.rng, S, A, False)
        return onp.asarray(self.value_transform.inverse_func(X)[0])


def init_successor(self, v, p, r, gamma=0.9):
    self.v = v
    self.p = p
    self.r = r
    self.gamma = gamma
    self.observation_space = p.observation_space
    self.action_space = p.action_space
    self.action_preprocessor = p.action_preprocessor
    self.observation_preprocessor = p.observation_preprocessor
    if is_stochastic(p):
        self.observation_postprocessor = p.proba_dist.postprocess_variate
    else:
        self.observation_postprocessor = p.observation_postprocessor
    self.value_transform = v.value_transform
