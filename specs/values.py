"""Reference semantics of value losses and value transforms."""
import jax
import jax.numpy as jnp


def weighted_mean(loss, w):
    if w is not None:
        assert w.ndim == 1
        assert loss.ndim >= 1
        assert loss.shape[0] == w.shape[0]
        loss = jax.vmap(jnp.multiply)(w, loss)
    return jnp.mean(loss)


def mse(y_true, y_pred, w=None):
    return weighted_mean(0.5 * jnp.square(y_pred - y_true), w)


def huber_elements(err, delta):
    quadratic = jnp.minimum(err, delta)
    return 0.5 * jnp.square(quadratic) + delta * (err - quadratic)


def huber(y_true, y_pred, w=None, delta=1.0):
    return weighted_mean(huber_elements(jnp.abs(y_pred - y_true), delta), w)


def logloss(y_true, y_pred, w=None):
    return weighted_mean(
        -y_true * jnp.log(y_pred) - (1. - y_true) * jnp.log(1. - y_pred), w)


def logloss_sign(y_true_sign, logits, w=None):
    return weighted_mean(jnp.log(1.0 + jnp.exp(-y_true_sign * logits)), w)


def quantile_huber(y_true, y_pred, quantiles, w=None, delta=1.0):
    td_error = y_true[..., None, :] - y_pred[..., None]
    over = td_error < 0
    loss = jnp.abs(quantiles[..., None] - over) * huber_elements(
        jnp.abs(td_error), delta) / delta
    return weighted_mean(loss.sum(axis=-1), w)


class ValueTransform:
    def __init__(self, transform_func, inverse_func):
        self._transform_func = transform_func
        self._inverse_func = inverse_func

    @property
    def transform_func(self):
        return self._transform_func

    @property
    def inverse_func(self):
        return self._inverse_func

    def __iter__(self):
        return iter((self._transform_func, self._inverse_func))


class LogTransform:
    def __init__(self, scale=1.0):
        assert scale > 0
        self.scale = scale
        self._transform_func = lambda x: jnp.sign(x) * scale * jnp.log(1 + jnp.abs(x) / scale)
        self._inverse_func = lambda x: jnp.sign(x) * scale * (jnp.exp(jnp.abs(x) / scale) - 1)

    @property
    def transform_func(self):
        return self._transform_func

    @property
    def inverse_func(self):
        return self._inverse_func

    def __iter__(self):
        return iter((self._transform_func, self._inverse_func))
