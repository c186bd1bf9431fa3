"""Reference semantics of the policy objectives, the regularizers and the model updater."""
import haiku as hk
import jax
import jax.numpy as jnp
import optax

from coax._core.base_stochastic_func_type1 import BaseStochasticFuncType1
from coax._core.base_stochastic_func_type2 import BaseStochasticFuncType2
from coax.utils import (
    get_grads_diagnostics, is_stochastic, is_transition_model, is_reward_function)


# ------------------------------------------------------------------------- policy objectives
def policy_at(self, params, state, rngs, batch):
    S = self.pi.observation_preprocessor(next(rngs), batch.S)
    return self.pi.function(params, state, next(rngs), S, True)


def logp_of_taken_action(self, dist_params, rngs, batch):
    A = self.pi.proba_dist.preprocess_variate(next(rngs), batch.A)
    return self.pi.proba_dist.log_proba(dist_params, A)


def weights(batch):
    return jnp.clip(batch.W, 0.1, 10.)


class VanillaPG:
    def objective_func(self, params, state, hyperparams, rng, transition_batch, Adv):
        rngs = hk.PRNGSequence(rng)
        dist_params, state_new = policy_at(self, params, state, rngs, transition_batch)
        log_pi = logp_of_taken_action(self, dist_params, rngs, transition_batch)
        objective = jnp.mean(weights(transition_batch) * Adv * log_pi)
        return objective, (dist_params, log_pi, state_new)


class PPOClip:
    def objective_func(self, params, state, hyperparams, rng, transition_batch, Adv):
        rngs = hk.PRNGSequence(rng)
        dist_params, state_new = policy_at(self, params, state, rngs, transition_batch)
        log_pi = logp_of_taken_action(self, dist_params, rngs, transition_batch)
        eps = hyperparams['epsilon']
        ratio = jnp.exp(log_pi - transition_batch.logP)
        surrogate = jnp.minimum(Adv * ratio, Adv * jnp.clip(ratio, 1 - eps, 1 + eps))
        objective = jnp.mean(weights(transition_batch) * surrogate)
        return objective, (dist_params, log_pi, state_new)

    @property
    def hyperparams(self):
        return {'regularizer': getattr(self.regularizer, 'hyperparams', {}),
                'epsilon': self.epsilon}


def action_value(q, params, state, rngs, batch, A):
    S = q.observation_preprocessor(next(rngs), batch.S)
    if is_stochastic(q):
        dist_params, _ = q.function_type1(params, state, next(rngs), S, A, True)
        return q.proba_dist.postprocess_variate(
            next(rngs), q.proba_dist.mean(dist_params), batch_mode=True)
    return q.function_type1(params, state, next(rngs), S, A, True)[0]


class DeterministicPG:
    def objective_func(self, params, state, hyperparams, rng, transition_batch, Adv):
        rngs = hk.PRNGSequence(rng)
        dist_params, state_new = policy_at(self, params, state, rngs, transition_batch)
        A = self.pi.proba_dist.mode(dist_params)
        log_pi = self.pi.proba_dist.log_proba(dist_params, A)
        Q = action_value(self.q_targ, hyperparams['q']['params'],
                         hyperparams['q']['function_state'], rngs, transition_batch, A)
        objective = jnp.mean(weights(transition_batch) * Q)
        return objective, (dist_params, log_pi, state_new)

    @property
    def hyperparams(self):
        return {'regularizer': getattr(self.regularizer, 'hyperparams', {}),
                'q': {'params': self.q_targ.params,
                      'function_state': self.q_targ.function_state}}

    def grads_and_metrics(self, transition_batch, Adv=None):
        return objective_gradient(self, transition_batch, None)


class SoftPG:
    def objective_func(self, params, state, hyperparams, rng, transition_batch, Adv):
        rngs = hk.PRNGSequence(rng)
        dist_params, state_new = policy_at(self, params, state, rngs, transition_batch)
        A = self.pi.proba_dist.sample(dist_params, next(rngs))
        log_pi = self.pi.proba_dist.log_proba(dist_params, A)
        Qs = []
        for q, params_q, state_q in zip(self.q_targ_list, hyperparams['q']['params'],
                                        hyperparams['q']['function_state']):
            Qs.append(action_value(q, params_q, state_q, rngs, transition_batch, A))
        Q = jnp.min(jnp.stack(Qs, axis=-1), axis=-1)
        objective = jnp.mean(weights(transition_batch) * Q)
        return objective, (dist_params, log_pi, state_new)

    @property
    def hyperparams(self):
        return {'regularizer': getattr(self.regularizer, 'hyperparams', {}),
                'q': {'params': [q.params for q in self.q_targ_list],
                      'function_state': [q.function_state for q in self.q_targ_list]}}

    def grads_and_metrics(self, transition_batch, Adv=None):
        return objective_gradient(self, transition_batch, None)


def hyperparams_default(self):
    return {'regularizer': getattr(self.regularizer, 'hyperparams', {})}


def objective_loss(self, params, state, hyperparams, rng, batch, Adv):
    """minus the objective, plus the (weighted) regularizer"""
    rngs = hk.PRNGSequence(rng)
    name = type(self).__name__
    objective, (dist_params, log_pi, state_new) = self.objective_func(
        params, state, hyperparams, next(rngs), batch, Adv)
    metrics = {f'{name}/loss': -objective, f'{name}/loss_bare': -objective,
               f'{name}/kl_div_old':
                   jnp.mean(jnp.exp(batch.logP) * (batch.logP - log_pi))}
    if self.regularizer is None:
        return -objective, (metrics, state_new)
    reg, reg_metrics = self.regularizer.batch_eval(
        params, hyperparams['regularizer'], state, next(rngs), batch)
    loss = -objective + jnp.mean(weights(batch) * reg)
    metrics[f'{name}/loss'] = loss
    metrics.update({f'{name}/{k}': v for k, v in reg_metrics.items()})
    return loss, (metrics, state_new)


def objective_gradient(self, transition_batch, Adv):
    def loss(params, state, hyperparams, rng, batch, Adv):
        return objective_loss(self, params, state, hyperparams, rng, batch, Adv)
    grads, (metrics, state_new) = jax.grad(loss, has_aux=True)(
        self._pi.params, self._pi.function_state, self.hyperparams, self._pi.rng,
        transition_batch, Adv)
    metrics.update(get_grads_diagnostics(grads, f'{type(self).__name__}/grads_'))
    return grads, state_new, metrics


def objective_update(self, transition_batch, Adv):
    grads, function_state, metrics = self.grads_and_metrics(transition_batch, Adv)
    if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):
        raise RuntimeError('')            # before anything has been changed
    objective_step(self, grads, function_state)
    return metrics


def objective_update_noadv(self, transition_batch, Adv=None):
    grads, function_state, metrics = self.grads_and_metrics(transition_batch, None)
    if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):
        raise RuntimeError('')
    objective_step(self, grads, function_state)
    return metrics


def objective_step(self, grads, function_state):
    updates, opt_state = self._optimizer.update(grads, self._optimizer_state, self._pi.params)
    self._pi.params = optax.apply_updates(self._pi.params, updates)
    self._pi.function_state = function_state
    self._optimizer_state = opt_state


def objective_set_optimizer(self, new_optimizer):
    if jax.tree_util.tree_structure(new_optimizer.init(self._pi.params)) != \
            jax.tree_util.tree_structure(self._optimizer_state):
        raise AttributeError('')
    self._optimizer = new_optimizer


def objective_set_optimizer_state(self, new_optimizer_state):
    self._optimizer_state = new_optimizer_state


# ------------------------------------------------------------------------------- regularizers
class Regularizer:
    @property
    def batch_eval(self):
        def evaluate(params, hyperparams, state, rng, transition_batch):
            rngs = hk.PRNGSequence(rng)
            S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
            if isinstance(self.f, BaseStochasticFuncType1):
                A = self.f.action_preprocessor(next(rngs), transition_batch.A)
                dist_params, _ = self.f.function(params, state, next(rngs), S, A, False)
            elif isinstance(self.f, BaseStochasticFuncType2):
                dist_params, _ = self.f.function(params, state, next(rngs), S, False)
            else:
                raise TypeError('')
            return (self.function(dist_params, **hyperparams),
                    self.metrics_func(dist_params, **hyperparams))
        return evaluate


def entropy_function(self):
    def function(dist_params, beta):
        return -beta * self.f.proba_dist.entropy(dist_params)
    return function


def entropy_metrics(self):
    def metrics(dist_params, beta):
        return {'EntropyRegularizer/beta': beta,
                'EntropyRegularizer/entropy':
                    jnp.mean(self.f.proba_dist.entropy(dist_params))}
    return metrics


def entropy_hyperparams(self):
    return {'beta': self.beta}


def kl_function(self):
    def function(dist_params, priors, beta):
        return beta * self.f.proba_dist.kl_divergence(dist_params, priors)
    return function


def kl_metrics(self):
    def metrics(dist_params, priors, beta):
        return {'KLDivRegularizer/beta': beta,
                'KLDivRegularizer/kl_div':
                    jnp.mean(self.f.proba_dist.kl_divergence(dist_params, priors))}
    return metrics


def kl_hyperparams(self):
    return {'beta': self.beta, 'priors': self.priors}


def entropy_init(self, f, beta=0.001):
    if not is_stochastic(f):
        raise TypeError('')
    self.f = f
    self.beta = beta


def kl_init(self, f, beta=0.001, priors=None):
    if not is_stochastic(f):
        raise TypeError('')
    self.f = f
    self.beta = beta
    self.priors = f.proba_dist.default_priors if priors is None else priors


# ------------------------------------------------------------------------------ model updater
def model_loss(self, params, state, hyperparams, rng, batch):
    rngs = hk.PRNGSequence(rng)
    name = type(self).__name__
    S = self.model.observation_preprocessor(next(rngs), batch.S)
    A = self.model.action_preprocessor(next(rngs), batch.A)
    out, state_new = self.model.function_type1(params, state, next(rngs), S, A, True)
    if is_stochastic(self.model):
        y_pred = self.model.proba_dist.sample(out, next(rngs))
    else:
        y_pred = out
    if is_transition_model(self.model):
        y_true = self.model.observation_preprocessor(next(rngs), batch.S_next)
    elif is_reward_function(self.model):
        y_true = self.model.value_transform.transform_func(batch.Rn)
    else:
        raise AssertionError('')
    W = weights(batch)
    bare = self.loss_function(y_true, y_pred, W)
    metrics = {f'{name}/loss': bare, f'{name}/loss_bare': bare}
    if self.regularizer is None:
        return bare, (metrics, state_new)
    hparams = hyperparams['regularizer']
    loss = bare + jnp.mean(W * self.regularizer.function(out, **hparams))
    metrics[f'{name}/loss'] = loss
    metrics.update(self.regularizer.metrics_func(out, **hparams))
    return loss, (metrics, state_new)


class ModelUpdater:
    def grads_and_metrics(self, transition_batch):
        def loss(params, state, hyperparams, rng, batch):
            return model_loss(self, params, state, hyperparams, rng, batch)
        grads, (metrics, state_new) = jax.grad(loss, has_aux=True)(
            self.model.params, self.model.function_state, self.hyperparams, self.model.rng,
            transition_batch)
        metrics.update(get_grads_diagnostics(grads, f'{type(self).__name__}/grads_'))
        return grads, state_new, metrics

    @property
    def hyperparams(self):
        return {'regularizer': getattr(self.regularizer, 'hyperparams', {})}

    def update(self, transition_batch):
        grads, function_state, metrics = self.grads_and_metrics(transition_batch)
        if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):
            raise RuntimeError('')
        model_step(self, grads, function_state)
        return metrics

    def apply_grads(self, grads, function_state):
        model_step(self, grads, function_state)

    @property
    def optimizer(self):
        return self._optimizer

    @optimizer.setter
    def optimizer(self, new_optimizer):
        if jax.tree_util.tree_structure(new_optimizer.init(self.model.params)) != \
                jax.tree_util.tree_structure(self._optimizer_state):
            raise AttributeError('')
        self._optimizer = new_optimizer

    @property
    def optimizer_state(self):
        return self._optimizer_state

    @optimizer_state.setter
    def optimizer_state(self, new_optimizer_state):
        if jax.tree_util.tree_structure(new_optimizer_state) != \
                jax.tree_util.tree_structure(self._optimizer_state):
            raise AttributeError('')
        self._optimizer_state = new_optimizer_state


def model_step(self, grads, function_state):
    updates, opt_state = self._optimizer.update(
        grads, self._optimizer_state, self.model.params)
    if jax.tree_util.tree_structure(opt_state) != \
            jax.tree_util.tree_structure(self._optimizer_state):
        raise AttributeError('')
    self.model.params = optax.apply_updates(self.model.params, updates)
    self.model.function_state = function_state
    self._optimizer_state = opt_state
