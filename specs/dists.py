"""Reference semantics of the probability distributions."""
import chex
import gymnasium
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp
from gymnasium.spaces import Box, Discrete

from coax.proba_dists._categorical import CategoricalDist as Categorical
from coax.proba_dists._normal import NormalDist as Normal
from coax.proba_dists._composite import StructureType
from coax.utils import argmax, clipped_logit, isscalar, jit, batch_to_single


# -------------------------------------------------------------------------------- categorical
def log_probs(self, logits, name='logits'):
    return jax.nn.log_softmax(two_dim(self, logits))


def two_dim(self, x):
    if not isinstance(x, jnp.ndarray):
        raise TypeError
    if not (x.ndim == 2 and x.shape[1] == self.space.n):
        raise ValueError
    return x


class CategoricalDist:
    @property
    def sample(self):
        def f(dist_params, rng):
            logp = log_probs(self, dist_params['logits'])
            gumbel = -jnp.log(-jnp.log(jax.random.uniform(rng, logp.shape)))
            return jax.nn.softmax((gumbel + logp) / self.gumbel_softmax_tau)
        return jit(f)

    @property
    def mean(self):
        def f(dist_params):
            return jax.nn.softmax(two_dim(self, dist_params['logits']))
        return jit(f)

    @property
    def mode(self):
        def f(dist_params):
            logp = log_probs(self, dist_params['logits'])
            return jax.nn.softmax(logp / self.gumbel_softmax_tau)
        return jit(f)

    @property
    def log_proba(self):
        def f(dist_params, X):
            return jnp.einsum('ij,ij->i', two_dim(self, X), log_probs(self, dist_params['logits']))
        return jit(f)

    @property
    def entropy(self):
        def f(dist_params):
            logp = log_probs(self, dist_params['logits'])
            return jnp.einsum('ij,ij->i', jnp.exp(logp), -logp)
        return jit(f)

    @property
    def cross_entropy(self):
        def f(dist_params_p, dist_params_q):
            p = jax.nn.softmax(two_dim(self, dist_params_p['logits']))
            logq = log_probs(self, dist_params_q['logits'])
            return jnp.einsum('ij,ij->i', p, -logq)
        return jit(f)

    @property
    def kl_divergence(self):
        def f(dist_params_p, dist_params_q):
            logp = log_probs(self, dist_params_p['logits'])
            logq = log_probs(self, dist_params_q['logits'])
            return jnp.einsum('ij,ij->i', jnp.exp(logp), logp - logq)
        return jit(f)

    @property
    def gumbel_softmax_tau(self):
        return init__gumbel_softmax_tau

    @property
    def hyperparams(self):
        return {'gumbel_softmax_tau': init__gumbel_softmax_tau}

    @property
    def space(self):
        return init__space

    @property
    def default_priors(self):
        return {'logits': jnp.zeros((1, self.space.n))}

    def preprocess_variate(self, rng, X):
        X = jnp.asarray(X)
        assert X.ndim <= 1
        assert jnp.issubdtype(X.dtype, jnp.integer)
        return jax.nn.one_hot(X, self.space.n).reshape(-1, self.space.n)

    def postprocess_variate(self, rng, X, index=0, batch_mode=False):
        assert X.ndim == 2
        assert X.shape[1] == self.space.n
        X = argmax(rng, X, axis=1)
        return X if batch_mode else int(X[index])


# ------------------------------------------------------------------------- discretized interval
def bin_centers():
    low, high = float(init__space.low), float(init__space.high)
    return low + (jnp.arange(init__num_bins) + 0.5) * (high - low) / init__num_bins


class DiscretizedIntervalDist:
    @property
    def low(self):
        return float(init__space.low)

    @property
    def high(self):
        return float(init__space.high)

    @property
    def space(self):
        return Discrete(init__num_bins)

    @property
    def num_bins(self):
        return Discrete(init__num_bins).n

    @property
    def space_orig(self):
        return init__space

    @property
    def atoms(self):
        return bin_centers().copy()

    @property
    def gumbel_softmax_tau(self):
        return init__gumbel_softmax_tau

    def postprocess_variate(self, rng, X, index=0, batch_mode=False):
        chex.assert_rank(X, {2, 3})
        assert X.shape[-1] == self.num_bins
        x = jnp.dot(X, bin_centers())
        chex.assert_rank(x, {1, 2})
        return x if batch_mode else x[index]

    @property
    def affine_transform(self):
        def f(dist_params, scale, shift, value_transform=None):
            chex.assert_rank([dist_params['logits'], scale, shift], [2, {0, 1}, {0, 1}])
            p = jax.nn.softmax(dist_params['logits'])
            n = p.shape[0]
            if isscalar(scale):
                scale = jnp.full(shape=(n,), fill_value=jnp.squeeze(scale))
            if isscalar(shift):
                shift = jnp.full(shape=(n,), fill_value=jnp.squeeze(shift))
            chex.assert_shape(p, (n, self.num_bins))
            chex.assert_shape([scale, shift], (n,))
            if value_transform is None:
                t = t_inv = lambda x: x
            else:
                t, t_inv = value_transform
            z = bin_centers()
            width = z[1] - z[0]
            Tz = t(jax.vmap(jnp.add)(jnp.outer(scale, t_inv(z)), shift))
            Tz = jnp.clip(Tz, z[0], z[-1])
            chex.assert_shape(Tz, (n, self.num_bins))
            b = (Tz - z[0]) / width
            lower = jnp.floor(b).astype('int32')
            upper = jnp.ceil(b).astype('int32')
            chex.assert_shape([p, b, lower, upper], (n, self.num_bins))
            m = jnp.zeros_like(p)
            i = jnp.expand_dims(jnp.arange(n), axis=1)
            m = m.at[i, lower].add(p * (upper - b), indices_are_sorted=True)
            m = m.at[i, upper].add(p * (b - lower), indices_are_sorted=True)
            m = m.at[i, lower].add(p * (lower == upper), indices_are_sorted=True)
            return {'logits': jnp.log(jnp.maximum(m, 1e-16))}
        return jit(f, static_argnums=(3,))


# ------------------------------------------------------------------------------------- normal
def low():
    return onp.maximum(onp.expand_dims(init__space.low, axis=0), init__clip_box[0])


def high():
    return onp.minimum(onp.expand_dims(init__space.high, axis=0), init__clip_box[1])


def like_space(self, x, flatten=True, log=False):
    """shape (batch, *space.shape), optionally flattened; log-variances are clipped"""
    if not isinstance(x, jnp.ndarray):
        raise TypeError
    if not (x.ndim == len(init__space.shape) + 1 and x.shape[1:] == init__space.shape):
        raise ValueError
    if flatten:
        x = x.reshape(x.shape[0], -1)
    if log:
        x = jnp.clip(x, *self.clip_logvar)
    return x


def two_gaussians(self, p, q):
    return (like_space(self, p['mu']), like_space(self, q['mu']),
            like_space(self, p['logvar'], log=True), like_space(self, q['logvar'], log=True))


LOG_2PI = 1.8378770664093453


class NormalDist:
    @property
    def space(self):
        return init__space

    @property
    def sample(self):
        def f(dist_params, rng):
            mu = like_space(self, dist_params['mu'])
            logvar = like_space(self, dist_params['logvar'], log=True)
            X = mu + jnp.exp(logvar / 2) * jax.random.normal(rng, mu.shape)
            return X.reshape(-1, *init__space.shape)
        return jit(f)

    @property
    def mean(self):
        def f(dist_params):
            return like_space(self, dist_params['mu'], flatten=False)
        return jit(f)

    @property
    def mode(self):
        def f(dist_params):
            return like_space(self, dist_params['mu'], flatten=False)
        return jit(f)

    @property
    def log_proba(self):
        def f(dist_params, X):
            X = like_space(self, X)
            mu = like_space(self, dist_params['mu'])
            logvar = like_space(self, dist_params['logvar'], log=True)
            n = logvar.shape[-1]
            quadratic = jnp.einsum('ij,ij->i', jnp.square(X - mu), jnp.exp(-logvar))
            return -0.5 * (n * onp.asarray(LOG_2PI) + jnp.sum(logvar, axis=-1) + quadratic)
        return jit(f)

    @property
    def entropy(self):
        def f(dist_params):
            logvar = like_space(self, dist_params['logvar'], log=True)
            assert logvar.ndim == 2
            n = logvar.shape[-1]
            return 0.5 * (n * onp.asarray(LOG_2PI) + jnp.sum(logvar, axis=-1) + n)
        return jit(f)

    @property
    def cross_entropy(self):
        def f(dist_params_p, dist_params_q):
            mu1, mu2, logvar1, logvar2 = two_gaussians(self, dist_params_p, dist_params_q)
            n = mu1.shape[-1]
            assert n == mu2.shape[-1] == logvar1.shape[-1] == logvar2.shape[-1]
            quadratic = jnp.einsum(
                'ij,ij->i', jnp.exp(logvar1) + jnp.square(mu1 - mu2), jnp.exp(-logvar2))
            return 0.5 * (n * onp.asarray(LOG_2PI) + jnp.sum(logvar2, axis=-1) + quadratic)
        return jit(f)

    @property
    def kl_divergence(self):
        def f(dist_params_p, dist_params_q):
            mu1, mu2, logvar1, logvar2 = two_gaussians(self, dist_params_p, dist_params_q)
            n = mu1.shape[-1]
            assert n == mu2.shape[-1] == logvar1.shape[-1] == logvar2.shape[-1]
            quadratic = jnp.einsum(
                'ij,ij->i', jnp.exp(logvar1) + jnp.square(mu1 - mu2), jnp.exp(-logvar2))
            return 0.5 * (jnp.sum(logvar2, axis=-1) - jnp.sum(logvar1, axis=-1) + quadratic - n)
        return jit(f)

    @property
    def affine_transform(self):
        def f(dist_params, scale, shift, value_transform=None):
            if value_transform is None:
                t = t_inv = lambda x: x
            else:
                t, t_inv = value_transform
            mu = like_space(self, dist_params['mu'], flatten=False)
            logvar = like_space(self, dist_params['logvar'], flatten=False, log=True)
            return {'mu': t(t_inv(mu) * scale + shift),
                    'logvar': jnp.log(t(t_inv(jnp.exp(logvar)) * jnp.square(scale)))}
        return jit(f, static_argnums=(3,))

    @property
    def default_priors(self):
        shape = (1, *init__space.shape)
        return {'mu': jnp.zeros(shape), 'logvar': jnp.zeros(shape)}

    def preprocess_variate(self, rng, X):
        X = jnp.asarray(X, dtype=init__space.dtype)
        X = jnp.reshape(X, (-1, *init__space.shape))
        X = jnp.clip(X, low(), high())
        return clipped_logit((X - low()) / (high() - low()))

    def postprocess_variate(self, rng, X, index=0, batch_mode=False):
        X = jnp.asarray(X, dtype=init__space.dtype)
        X = jnp.reshape(X, (-1, *init__space.shape))
        X = jnp.clip(X, *self.clip_reals)
        X = low() + (high() - low()) * jax.nn.sigmoid(X)
        return X if batch_mode else onp.asanyarray(X[index])


def init_normal(self, space, clip_box=(-256., 256.), clip_reals=(-30., 30.),
                clip_logvar=(-20., 20.)):
    self.clip_box = clip_box
    self.clip_reals = clip_reals
    self.clip_logvar = clip_logvar


# ----------------------------------------------------------------------------- squashed normal
class SquashedNormalDist:
    @property
    def space(self):
        return init__space

    @property
    def kl_divergence(self):
        return Normal(space=init__space, clip_logvar=init__clip_logvar).kl_divergence

    @property
    def affine_transform(self):
        return Normal(space=init__space, clip_logvar=init__clip_logvar).affine_transform

    @property
    def sample(self):
        def f(dist_params, rng):
            scale = (init__space.high - init__space.low) / 2.0
            offset = (init__space.high + init__space.low) / 2.0
            X = Normal(space=init__space, clip_logvar=init__clip_logvar).sample(dist_params, rng)
            return jnp.tanh(X) * scale + offset
        return jax.jit(f)

    @property
    def mean(self):
        def f(dist_params):
            scale = (init__space.high - init__space.low) / 2.0
            offset = (init__space.high + init__space.low) / 2.0
            mu = Normal(space=init__space, clip_logvar=init__clip_logvar).mean(dist_params)
            return jnp.tanh(mu) * scale + offset
        return jax.jit(f)

    @property
    def mode(self):
        return self.mean

    @property
    def log_proba(self):
        def f(dist_params, X):
            scale = (init__space.high - init__space.low) / 2.0
            offset = (init__space.high + init__space.low) / 2.0
            X = (X - offset) / scale
            X = jnp.arctanh(jnp.clip(X, a_min=-1.0 + 1e-7, a_max=1.0 - 1e-7))
            logp = Normal(space=init__space, clip_logvar=init__clip_logvar).log_proba(
                dist_params, X)
            logdetjac = jnp.log(scale) + 2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X)))
            return logp - jnp.sum(logdetjac.reshape(X.shape[0], -1), axis=-1)
        return jax.jit(f)

    @property
    def default_priors(self):
        return Normal(space=init__space, clip_logvar=init__clip_logvar).default_priors

    def preprocess_variate(self, rng, X):
        X = jnp.asarray(X, dtype=init__space.dtype)
        return jnp.reshape(X, (-1, *init__space.shape))

    def postprocess_variate(self, rng, X, index=0, batch_mode=False):
        X = jnp.asarray(X, dtype=init__space.dtype)
        X = jnp.reshape(X, (-1, *init__space.shape))
        return X if batch_mode else onp.asanyarray(X[index])


def init_categorical(self, space, gumbel_softmax_tau=0.2):
    self._space = space


def init_discretized(self, space, num_bins=20, gumbel_softmax_tau=0.2):
    self._space = Discrete(num_bins)


def init_squashed(self, space, clip_logvar=(-20., 20.)):
    self._space = space


# -------------------------------------------------------------------------- empirical quantiles
def array(x):
    if not isinstance(x, jnp.ndarray):
        raise TypeError
    return x


class EmpiricalQuantileDist:
    @property
    def mean(self):
        def f(dist_params):
            return jnp.mean(array(dist_params['values']), axis=-1)
        return jit(f)

    @property
    def affine_transform(self):
        def f(dist_params, scale, shift, value_transform=None):
            chex.assert_rank([dist_params['values'], scale, shift], [2, {0, 1}, {0, 1}])
            values = array(dist_params['values'])
            fractions = array(dist_params['quantile_fractions'])
            n = values.shape[0]
            if isscalar(scale):
                scale = jnp.full(shape=(n, 1), fill_value=jnp.squeeze(scale))
            if isscalar(shift):
                shift = jnp.full(shape=(n, 1), fill_value=jnp.squeeze(shift))
            scale = jnp.reshape(scale, (n, 1))
            shift = jnp.reshape(shift, (n, 1))
            chex.assert_shape(values, (n, self.num_quantiles))
            chex.assert_shape([scale, shift], (n, 1))
            if value_transform is None:
                t = t_inv = lambda x: x
            else:
                t, t_inv = value_transform
            return {'values': t(shift + scale * t_inv(values)), 'quantile_fractions': fractions}
        return jit(f, static_argnums=(3,))

    @property
    def default_priors(self):
        return {'values': jnp.zeros((1, self.num_quantiles)),
                'quantile_fractions': jnp.ones((1, self.num_quantiles))}

    def postprocess_variate(self, rng, X, index=0, batch_mode=False):
        return X if batch_mode else batch_to_single(X)


def init_quantile(self, num_quantiles):
    self.num_quantiles = num_quantiles


# ----------------------------------------------------------------------------------- composite
def init_composite(self, space):
    """one component per sub-space"""
    if isinstance(space, Discrete):
        self._structure_type = StructureType.LEAF
        self._structure = Categorical(space)
    elif isinstance(space, Box):
        self._structure_type = StructureType.LEAF
        self._structure = Normal(space)
    elif isinstance(space, gymnasium.spaces.MultiDiscrete):
        self._structure_type = StructureType.LIST
        self._structure = [self.__class__(Discrete(n)) for n in space.nvec]
    elif isinstance(space, gymnasium.spaces.MultiBinary):
        self._structure_type = StructureType.LIST
        self._structure = [self.__class__(Discrete(2)) for _ in range(space.n)]
    elif isinstance(space, gymnasium.spaces.Tuple):
        self._structure_type = StructureType.LIST
        self._structure = [self.__class__(sp) for sp in space.spaces]
    elif isinstance(space, gymnasium.spaces.Dict):
        self._structure_type = StructureType.DICT
        self._structure = {k: self.__class__(sp) for k, sp in space.spaces.items()}
    else:
        raise TypeError
    self._space = space


class ProbaDist:
    @property
    def space(self):
        return init__space

    @property
    def sample(self):
        def f(dist_params, rng):
            if self._structure_type == StructureType.LEAF:
                return self._structure.sample(dist_params, rng)
            rngs = hk.PRNGSequence(rng)
            if self._structure_type == StructureType.LIST:
                return [d.sample(dist_params[i], next(rngs)) for i, d in enumerate(self._structure)]
            if self._structure_type == StructureType.DICT:
                return {k: d.sample(dist_params[k], next(rngs)) for k, d in self._structure.items()}
            raise AssertionError
        return jit(f)

    @property
    def mean(self):
        def f(dist_params):
            if self._structure_type == StructureType.LEAF:
                return self._structure.mean(dist_params)
            if self._structure_type == StructureType.LIST:
                return [d.mean(dist_params[i]) for i, d in enumerate(self._structure)]
            if self._structure_type == StructureType.DICT:
                return {k: d.mean(dist_params[k]) for k, d in self._structure.items()}
            raise AssertionError
        return jit(f)

    @property
    def mode(self):
        def f(dist_params):
            if self._structure_type == StructureType.LEAF:
                return self._structure.mode(dist_params)
            if self._structure_type == StructureType.LIST:
                return [d.mode(dist_params[i]) for i, d in enumerate(self._structure)]
            if self._structure_type == StructureType.DICT:
                return {k: d.mode(dist_params[k]) for k, d in self._structure.items()}
            raise AssertionError
        return jit(f)

    @property
    def log_proba(self):
        def f(dist_params, X):
            if self._structure_type == StructureType.LEAF:
                return self._structure.log_proba(dist_params, X)
            if self._structure_type == StructureType.LIST:
                return sum(d.log_proba(dist_params[i], X[i])
                           for i, d in enumerate(self._structure))
            if self._structure_type == StructureType.DICT:
                return sum(d.log_proba(dist_params[k], X[k]) for k, d in self._structure.items())
        return jit(f)

    @property
    def entropy(self):
        def f(dist_params):
            if self._structure_type == StructureType.LEAF:
                return self._structure.entropy(dist_params)
            if self._structure_type == StructureType.LIST:
                return sum(d.entropy(dist_params[i]) for i, d in enumerate(self._structure))
            if self._structure_type == StructureType.DICT:
                return sum(d.entropy(dist_params[k]) for k, d in self._structure.items())
            raise AssertionError
        return jit(f)

    @property
    def cross_entropy(self):
        def f(dist_params_p, dist_params_q):
            if self._structure_type == StructureType.LEAF:
                return self._structure.cross_entropy(dist_params_p, dist_params_q)
            if self._structure_type == StructureType.LIST:
                return sum(d.cross_entropy(dist_params_p[i], dist_params_q[i])
                           for i, d in enumerate(self._structure))
            if self._structure_type == StructureType.DICT:
                return sum(d.cross_entropy(dist_params_p[k], dist_params_q[k])
                           for k, d in self._structure.items())
            raise AssertionError
        return jit(f)

    @property
    def kl_divergence(self):
        def f(dist_params_p, dist_params_q):
            if self._structure_type == StructureType.LEAF:
                return self._structure.kl_divergence(dist_params_p, dist_params_q)
            if self._structure_type == StructureType.LIST:
                return sum(d.kl_divergence(dist_params_p[i], dist_params_q[i])
                           for i, d in enumerate(self._structure))
            if self._structure_type == StructureType.DICT:
                return sum(d.kl_divergence(dist_params_p[k], dist_params_q[k])
                           for k, d in self._structure.items())
            raise AssertionError
        return jit(f)

    @property
    def affine_transform(self):
        def f(dist_params, scale, shift, value_transform=None):
            if value_transform is None:
                value_transform = jax.tree_map(lambda _: None, self._structure)
            if self._structure_type == StructureType.LEAF:
                return self._structure.affine_transform(
                    dist_params, scale, shift, value_transform)
            if self._structure_type == StructureType.LIST:
                return [d.affine_transform(dist_params[i], scale[i], shift[i], value_transform[i])
                        for i, d in enumerate(self._structure)]
            if self._structure_type == StructureType.DICT:
                return {k: d.affine_transform(dist_params[k], scale[k], shift[k],
                                              value_transform[k])
                        for k, d in self._structure.items()}
            raise AssertionError
        return f

    @property
    def hyperparams(self):
        if self._structure_type == StructureType.LEAF:
            return self._structure.hyperparams
        if self._structure_type == StructureType.LIST:
            return tuple(d.hyperparams for d in self._structure)
        if self._structure_type == StructureType.DICT:
            return {k: d.hyperparams for k, d in self._structure.items()}
        raise AssertionError

    @property
    def default_priors(self):
        if self._structure_type == StructureType.LEAF:
            return self._structure.default_priors
        if self._structure_type == StructureType.LIST:
            return tuple(d.default_priors for d in self._structure)
        if self._structure_type == StructureType.DICT:
            return {k: d.default_priors for k, d in self._structure.items()}
        raise AssertionError

    def postprocess_variate(self, rng, X, index=0, batch_mode=False):
        rngs = hk.PRNGSequence(rng)
        kw = dict(index=index, batch_mode=batch_mode)
        if self._structure_type == StructureType.LEAF:
            return self._structure.postprocess_variate(next(rngs), X, **kw)
        if isinstance(self.space, (gymnasium.spaces.MultiDiscrete, gymnasium.spaces.MultiBinary)):
            return onp.stack([d.postprocess_variate(next(rngs), X[i], **kw)
                              for i, d in enumerate(self._structure)], axis=-1)
        if isinstance(self.space, gymnasium.spaces.Tuple):
            return tuple(d.postprocess_variate(next(rngs), X[i], **kw)
                         for i, d in enumerate(self._structure))
        if isinstance(self.space, gymnasium.spaces.Dict):
            return {k: d.postprocess_variate(next(rngs), X[k], **kw)
                    for k, d in self._structure.items()}
        raise AssertionError

    def preprocess_variate(self, rng, X):
        rngs = hk.PRNGSequence(rng)
        if self._structure_type == StructureType.LEAF:
            return self._structure.preprocess_variate(next(rngs), X)
        if isinstance(self.space, (gymnasium.spaces.MultiDiscrete, gymnasium.spaces.MultiBinary)):
            return [d.preprocess_variate(next(rngs), X[..., i])
                    for i, d in enumerate(self._structure)]
        if self._structure_type == StructureType.LIST:
            return [d.preprocess_variate(next(rngs), X[i])
                    for i, d in enumerate(self._structure)]
        if self._structure_type == StructureType.DICT:
            return {k: d.preprocess_variate(next(rngs), X[k])
                    for k, d in self._structure.items()}
        raise AssertionError
