"""Reference semantics of the TD-learning updaters.

``targets``: what the bootstrapped target of each algorithm is, as a function of the parameters
and states handed to it.  ``loss``: how prediction, target, importance weights and policy
regularizer enter the loss, TD error and metrics.  ``step``: what one update changes.
"""
import haiku as hk
import jax
import jax.numpy as jnp
import optax
from gymnasium.spaces import Discrete
from jax.scipy.special import logsumexp

from coax.proba_dists import DiscretizedIntervalDist, EmpiricalQuantileDist
from coax.regularizers import Regularizer
from coax.utils import (
    batch_to_single, get_grads_diagnostics, is_policy, is_qfunction, is_stochastic, is_vfunction,
    single_to_batch, stack_trees)
from coax.value_losses import huber, quantile_huber


# ------------------------------------------------------------------------------------ targets
def bellman(self_transform, next_inverse, batch, value_next):
    """G = f(Rn + In * f_inv(value at the next state))"""
    return self_transform(batch.Rn + batch.In * next_inverse(value_next))


def v_dist(self, params, state, rngs, batch):
    S_next = self.v_targ.observation_preprocessor(next(rngs), batch.S_next)
    dist_params, _ = self.v_targ.function(params, state, next(rngs), S_next, False)
    return self.v_targ.proba_dist.affine_transform(
        dist_params, batch.In, batch.Rn, self.v_targ.value_transform)


def q_dist(self, params, state, rngs, batch, A_next):
    S_next = self.q_targ.observation_preprocessor(next(rngs), batch.S_next)
    dist_params, _ = self.q_targ.function_type1(params, state, next(rngs), S_next, A_next, False)
    return self.q_targ.proba_dist.affine_transform(
        dist_params, batch.In, batch.Rn, self.q_targ.value_transform)


def greedy(Q_s):
    """probability mass spread evenly over the maximising actions"""
    A = (Q_s == Q_s.max(axis=1, keepdims=True)).astype(Q_s.dtype)
    return A / A.sum(axis=1, keepdims=True)


class SimpleTD:
    def target_func(self, target_params, target_state, rng, transition_batch):
        rngs = hk.PRNGSequence(rng)
        params, state = target_params['v_targ'], target_state['v_targ']
        if is_stochastic(self.v):
            return v_dist(self, params, state, rngs, transition_batch)
        S_next = self.v_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
        V_next, _ = self.v_targ.function(params, state, next(rngs), S_next, False)
        return bellman(self.v.value_transform.transform_func,
                       self.v_targ.value_transform.inverse_func, transition_batch, V_next)


class Sarsa:
    def target_func(self, target_params, target_state, rng, transition_batch):
        rngs = hk.PRNGSequence(rng)
        params, state = target_params['q_targ'], target_state['q_targ']
        A_next = self.q_targ.action_preprocessor(next(rngs), transition_batch.A_next)
        if is_stochastic(self.q):
            return q_dist(self, params, state, rngs, transition_batch, A_next)
        S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
        Q_sa_next, _ = self.q_targ.function_type1(
            params, state, next(rngs), S_next, A_next, False)
        return bellman(self.q.value_transform.transform_func,
                       self.q_targ.value_transform.inverse_func, transition_batch, Q_sa_next)


class ExpectedSarsa:
    def target_func(self, target_params, target_state, rng, transition_batch):
        rngs = hk.PRNGSequence(rng)
        S_next = self.pi_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
        dist_params, _ = self.pi_targ.function(
            target_params['pi_targ'], target_state['pi_targ'], next(rngs), S_next, False)
        A_next = jax.nn.softmax(dist_params['logits'], axis=-1)
        params, state = target_params['q_targ'], target_state['q_targ']
        if is_stochastic(self.q):
            return q_dist(self, params, state, rngs, transition_batch, A_next)
        S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
        Q_sa_next, _ = self.q_targ.function_type1(
            params, state, next(rngs), S_next, A_next, False)
        return bellman(self.q.value_transform.transform_func,
                       self.q_targ.value_transform.inverse_func, transition_batch, Q_sa_next)


def greedy_action(self, target_params, target_state, rngs, batch):
    """the action that maximises the *target* q-function (discrete) or the mode of the target
    policy (otherwise)"""
    if isinstance(self.q.action_space, Discrete):
        params, state = target_params['q_targ'], target_state['q_targ']
        S_next = self.q_targ.observation_preprocessor(next(rngs), batch.S_next)
        if is_stochastic(self.q):
            Q_s = self.q_targ.mean_func_type2(params, state, next(rngs), S_next)
            Q_s = self.q_targ.proba_dist.postprocess_variate(next(rngs), Q_s, batch_mode=True)
        else:
            Q_s, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
        return greedy(Q_s)
    S_next = self.pi_targ.observation_preprocessor(next(rngs), batch.S_next)
    return self.pi_targ.mode_func(
        target_params['pi_targ'], target_state['pi_targ'], next(rngs), S_next)


class QLearning:
    def target_func(self, target_params, target_state, rng, transition_batch):
        rngs = hk.PRNGSequence(rng)
        A_next = greedy_action(self, target_params, target_state, rngs, transition_batch)
        params, state = target_params['q_targ'], target_state['q_targ']
        if is_stochastic(self.q):
            return q_dist(self, params, state, rngs, transition_batch, A_next)
        S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
        Q_sa_next, _ = self.q.function_type1(params, state, next(rngs), S_next, A_next, False)
        return bellman(self.q.value_transform.transform_func,
                       self.q_targ.value_transform.inverse_func, transition_batch, Q_sa_next)


class DoubleQLearning:
    def target_func(self, target_params, target_state, rng, transition_batch):
        # action chosen with one set of parameters, evaluated with the other
        rngs = hk.PRNGSequence(rng)
        A_next = greedy_action(self, target_params, target_state, rngs, transition_batch)
        params, state = target_params['q'], target_state['q']
        if is_stochastic(self.q):
            return q_dist(self, params, state, rngs, transition_batch, A_next)
        S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
        Q_sa_next, _ = self.q.function_type1(params, state, next(rngs), S_next, A_next, False)
        return bellman(self.q.value_transform.transform_func,
                       self.q_targ.value_transform.inverse_func, transition_batch, Q_sa_next)


class SoftQLearning:
    def target_func(self, target_params, target_state, rng, transition_batch):
        rngs = hk.PRNGSequence(rng)
        tau = target_params['temperature']
        S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
        Q_s, _ = self.q_targ.function_type2(
            target_params['q_targ'], target_state['q_targ'], next(rngs), S_next, False)
        V_next = tau * logsumexp(Q_s / tau, axis=-1)
        return bellman(self.q.value_transform.transform_func,
                       self.q_targ.value_transform.inverse_func, transition_batch, V_next)


def clipped(self, target_params, target_state, rngs, batch, use_mode):
    """the minimum over all (action proposer, target q-function) pairs"""
    Q_list, A_list = [], []
    qs = list(zip(self.q_targ_list, target_params['q_targ'], target_state['q_targ']))
    if isinstance(self.q.action_space, Discrete):
        for q_i, params_i, state_i in qs:
            S_next = q_i.observation_preprocessor(next(rngs), batch.S_next)
            if is_stochastic(q_i):
                Q_s = q_i.mean_func_type2(params_i, state_i, next(rngs), S_next)
                Q_s = q_i.proba_dist.postprocess_variate(next(rngs), Q_s, batch_mode=True)
            else:
                Q_s, _ = q_i.function_type2(params_i, state_i, next(rngs), S_next, False)
            A_next = greedy(Q_s)
            for q_j, params_j, state_j in qs:
                Q_list.append(evaluate(q_j, params_j, state_j, rngs, batch, A_next))
                A_list.append(A_next)
    else:
        pis = list(zip(self.pi_targ_list, target_params['pi_targ'], target_state['pi_targ']))
        for pi_i, params_i, state_i in pis:
            S_next = pi_i.observation_preprocessor(next(rngs), batch.S_next)
            dist_params, _ = pi_i.function(params_i, state_i, next(rngs), S_next, False)
            if use_mode:
                A_next = pi_i.proba_dist.mode(dist_params)
            else:
                A_next = pi_i.proba_dist.sample(dist_params, next(rngs))
            for q_j, params_j, state_j in qs:
                Q_list.append(evaluate(q_j, params_j, state_j, rngs, batch, A_next))
                A_list.append(A_next)
    A_all = jnp.stack(A_list, axis=1)
    Q_all = jnp.stack(Q_list, axis=-1)
    if is_stochastic(self.q):
        k = jnp.argmin(Q_all, axis=-1)
        n = len(self.q_targ_list)

        def one(a_idx, q_idx, p, s, tr, A):
            return q_dist(
                self, batch_to_single(p, q_idx), batch_to_single(s, q_idx),
                hk.PRNGSequence(next(rngs)), single_to_batch(tr),
                single_to_batch(batch_to_single(A, a_idx)))
        params, state = jax.tree_util.tree_map(
            lambda x: jnp.tile(x, [n, *([1] * (x.ndim - 1))]),
            stack_trees(target_params['q_targ'], target_state['q_targ']))
        dist_params = jax.vmap(one, in_axes=(0, 0, None, None, 0, 0))(
            k, k % n, params, state, batch, A_all)
        return jax.tree_util.tree_map(lambda x: jnp.squeeze(x, axis=1), dist_params)
    Q_min = jnp.min(Q_all, axis=-1)
    return self.q.value_transform.transform_func(batch.Rn + batch.In * Q_min)


def evaluate(q, params, state, rngs, batch, A_next):
    S_next = q.observation_preprocessor(next(rngs), batch.S_next)
    if is_stochastic(q):
        Q = q.mean_func_type1(params, state, next(rngs), S_next, A_next)
        Q = q.proba_dist.postprocess_variate(next(rngs), Q, batch_mode=True)
    else:
        Q, _ = q.function_type1(params, state, next(rngs), S_next, A_next, False)
    return q.value_transform.inverse_func(Q)


class ClippedDoubleQLearning:
    def target_func(self, target_params, target_state, rng, transition_batch):
        return clipped(self, target_params, target_state, hk.PRNGSequence(rng), transition_batch,
                       True)


class SoftClippedDoubleQLearning:
    def target_func(self, target_params, target_state, rng, transition_batch):
        return clipped(self, target_params, target_state, hk.PRNGSequence(rng), transition_batch,
                       False)


# --------------------------------------------------- which parameters the targets are made of
def reg_params(self):
    return getattr(getattr(self.policy_regularizer, 'f', None), 'params', None)


def reg_state(self):
    return getattr(getattr(self.policy_regularizer, 'f', None), 'function_state', None)


def reg_hparams(self):
    return getattr(self.policy_regularizer, 'hyperparams', None)


def target_params_v(self):
    return {'v': self.v.params, 'v_targ': self.v_targ.params, 'reg': reg_params(self),
            'reg_hparams': reg_hparams(self)}


def target_state_v(self):
    return {'v': self.v.function_state, 'v_targ': self.v_targ.function_state,
            'reg': reg_state(self)}


def target_params_q(self):
    return {'q': self.q.params, 'q_targ': self.q_targ.params, 'reg': reg_params(self),
            'reg_hparams': reg_hparams(self)}


def target_state_q(self):
    return {'q': self.q.function_state, 'q_targ': self.q_targ.function_state,
            'reg': reg_state(self)}


def target_params_pi(self):
    return {'q': self.q.params, 'q_targ': self.q_targ.params,
            'pi_targ': getattr(self.pi_targ, 'params', None), 'reg': reg_params(self),
            'reg_hparams': reg_hparams(self)}


def target_state_pi(self):
    return {'q': self.q.function_state, 'q_targ': self.q_targ.function_state,
            'pi_targ': getattr(self.pi_targ, 'function_state', None), 'reg': reg_state(self)}


def target_params_soft(self):
    return {'q': self.q.params, 'q_targ': self.q_targ.params, 'reg': reg_params(self),
            'reg_hparams': reg_hparams(self), 'temperature': self.temperature}


def target_params_clipped(self):
    return {'q': self.q.params, 'q_targ': [q.params for q in self.q_targ_list],
            'pi_targ': [pi.params for pi in self.pi_targ_list], 'reg': reg_params(self),
            'reg_hparams': reg_hparams(self)}


def target_state_clipped(self):
    return {'q': self.q.function_state, 'q_targ': [q.function_state for q in self.q_targ_list],
            'pi_targ': [pi.function_state for pi in self.pi_targ_list], 'reg': reg_state(self)}


# --------------------------------------------------------------------------------------- loss
def regularizer(self, target_params, target_state, rngs, batch):
    if self.policy_regularizer is None:
        return 0., {}
    return self.policy_regularizer.batch_eval(
        target_params['reg'], target_params['reg_hparams'], target_state['reg'], next(rngs), batch)


def finish(self, metrics, reg_metrics, loss, X, G, X_targ, W, state_new):
    """TD error and metrics, for predictions X, targets G and target-network predictions X_targ"""
    name = type(self).__name__
    dloss = jax.grad(self.loss_function, argnums=1)
    td_error = -X.shape[0] * dloss(G, X)
    metrics = {f'{name}/{k}': v for k, v in reg_metrics.items()}
    metrics.update({
        f'{name}/loss': loss,
        f'{name}/td_error': jnp.mean(W * td_error),
        f'{name}/td_error_targ': jnp.mean(-dloss(X, X_targ, W))})
    return loss, (td_error, state_new, metrics)


def dist_loss(proba_dist, dist_params_target, dist_params, W):
    if isinstance(proba_dist, DiscretizedIntervalDist):
        return jnp.mean(W * proba_dist.cross_entropy(dist_params_target, dist_params))
    elif isinstance(proba_dist, EmpiricalQuantileDist):
        return quantile_huber(dist_params_target['values'], dist_params['values'],
                              dist_params['quantile_fractions'], W)


def dist_mean(proba_dist, dist_params, rngs):
    return proba_dist.postprocess_variate(
        next(rngs), proba_dist.mean(dist_params), batch_mode=True)


def loss_v(self, params, target_params, state, target_state, rng, batch):
    rngs = hk.PRNGSequence(rng)
    S = self.v.observation_preprocessor(next(rngs), batch.S)
    W = jnp.clip(batch.W, 0.1, 10.)
    reg, reg_metrics = regularizer(self, target_params, target_state, rngs, batch)
    if is_stochastic(self.v):
        d = self.v.proba_dist
        dist_params, state_new = self.v.function(params, state, next(rngs), S, True)
        dist_target = self.target_func(target_params, target_state, next(rngs), batch)
        if self.policy_regularizer is not None:
            dist_target = d.affine_transform(dist_target, 1., -reg, self.v.value_transform)
        loss = dist_loss(d, dist_target, dist_params, W)
        V, G = dist_mean(d, dist_params, rngs), dist_mean(d, dist_target, rngs)
        dist_targ, _ = self.v.function(
            target_params['v_targ'], target_state['v_targ'], next(rngs), S, False)
        V_targ = dist_mean(d, dist_targ, rngs)
    else:
        V, state_new = self.v.function(params, state, next(rngs), S, True)
        G = self.target_func(target_params, target_state, next(rngs), batch) - reg
        loss = self.loss_function(G, V, W)
        V_targ, _ = self.v.function(
            target_params['v_targ'], target_state['v_targ'], next(rngs), S, False)
    return finish(self, {}, reg_metrics, loss, V, G, V_targ, W, state_new)


def loss_q(self, params, target_params, state, target_state, rng, batch):
    rngs = hk.PRNGSequence(rng)
    S = self.q.observation_preprocessor(next(rngs), batch.S)
    A = self.q.action_preprocessor(next(rngs), batch.A)
    W = jnp.clip(batch.W, 0.1, 10.)
    reg, reg_metrics = regularizer(self, target_params, target_state, rngs, batch)
    if is_stochastic(self.q):
        d = self.q.proba_dist
        dist_params, state_new = self.q.function_type1(params, state, next(rngs), S, A, True)
        dist_target = self.target_func(target_params, target_state, next(rngs), batch)
        if self.policy_regularizer is not None:
            dist_target = d.affine_transform(dist_target, 1., -reg, self.q.value_transform)
        loss = dist_loss(d, dist_target, dist_params, W)
        Q, G = dist_mean(d, dist_params, rngs), dist_mean(d, dist_target, rngs)
        dist_targ, _ = self.q.function_type1(
            target_params['q_targ'], target_state['q_targ'], next(rngs), S, A, False)
        Q_targ = dist_mean(d, dist_targ, rngs)
    else:
        Q, state_new = self.q.function_type1(params, state, next(rngs), S, A, True)
        G = self.target_func(target_params, target_state, next(rngs), batch) - reg
        loss = self.loss_function(G, Q, W)
        Q_targ, _ = self.q.function_type1(
            target_params['q_targ'], target_state['q_targ'], next(rngs), S, A, False)
    return finish(self, {}, reg_metrics, loss, Q, G, Q_targ, W, state_new)


def loss_clipped(self, params, target_params, state, target_state, rng, batch):
    rngs = hk.PRNGSequence(rng)
    S = self.q.observation_preprocessor(next(rngs), batch.S)
    A = self.q.action_preprocessor(next(rngs), batch.A)
    W = jnp.clip(batch.W, 0.1, 10.)
    reg, reg_metrics = regularizer(self, target_params, target_state, rngs, batch)
    if is_stochastic(self.q):
        d = self.q.proba_dist
        dist_params, state_new = self.q.function_type1(params, state, next(rngs), S, A, True)
        dist_target = self.target_func(target_params, target_state, next(rngs), batch)
        if self.policy_regularizer is not None:
            dist_target = d.affine_transform(dist_target, 1., -reg, self.q.value_transform)
        loss = dist_loss(d, dist_target, dist_params, W)
        Q, G = dist_mean(d, dist_params, rngs), dist_mean(d, dist_target, rngs)
    else:
        Q, state_new = self.q.function_type1(params, state, next(rngs), S, A, True)
        G = self.target_func(target_params, target_state, next(rngs), batch) - reg
        loss = self.loss_function(G, Q, W)
    Q_targs = []
    for q, pm, st in zip(self.q_targ_list, target_params['q_targ'], target_state['q_targ']):
        if is_stochastic(q):
            Q_t = q.mean_func_type1(pm, st, next(rngs), S, A)
            Q_t = q.proba_dist.postprocess_variate(next(rngs), Q_t, batch_mode=True)
        else:
            Q_t, _ = q.function_type1(pm, st, next(rngs), S, A, False)
        Q_targs.append(Q_t)
    Q_targ = jnp.min(jnp.stack(Q_targs, axis=-1), axis=-1)
    return finish(self, {}, reg_metrics, loss, Q, G, Q_targ, W, state_new)


def grads_v(self, transition_batch):
    def loss(params, target_params, state, target_state, rng, batch):
        return loss_v(self, params, target_params, state, target_state, rng, batch)
    return gradient(self, loss, transition_batch)


def grads_q(self, transition_batch):
    def loss(params, target_params, state, target_state, rng, batch):
        return loss_q(self, params, target_params, state, target_state, rng, batch)
    return gradient(self, loss, transition_batch)


def grads_clipped(self, transition_batch):
    def loss(params, target_params, state, target_state, rng, batch):
        return loss_clipped(self, params, target_params, state, target_state, rng, batch)
    return gradient(self, loss, transition_batch)


def gradient(self, loss, transition_batch):
    # the gradient is taken w.r.t. the parameters of the updated function only; targets are data
    grads, (td_error, state_new, metrics) = jax.grad(loss, has_aux=True)(
        self._f.params, self.target_params, self._f.function_state, self.target_function_state,
        self._f.rng, transition_batch)
    metrics.update(get_grads_diagnostics(grads, f'{type(self).__name__}/grads_'))
    return grads, state_new, metrics, td_error


def td_error_v(self, transition_batch):
    return loss_v(self, self._f.params, self.target_params, self._f.function_state,
                  self.target_function_state, self._f.rng, transition_batch)[1][0]


def td_error_q(self, transition_batch):
    return loss_q(self, self._f.params, self.target_params, self._f.function_state,
                  self.target_function_state, self._f.rng, transition_batch)[1][0]


def td_error_clipped(self, transition_batch):
    return loss_clipped(self, self._f.params, self.target_params, self._f.function_state,
                        self.target_function_state, self._f.rng, transition_batch)[1][0]


# --------------------------------------------------------------------------------------- step
def update(self, transition_batch, return_td_error=False):
    grads, function_state, metrics, td_error = self.grads_and_metrics(transition_batch)
    if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):
        raise RuntimeError('')           # before anything has been changed
    step(self, grads, function_state)
    return (metrics, td_error) if return_td_error else metrics


def step(self, grads, function_state):
    updates, opt_state = self._optimizer.update(grads, self._optimizer_state, self._f.params)
    if jax.tree_util.tree_structure(opt_state) != \
            jax.tree_util.tree_structure(self._optimizer_state):
        raise AttributeError('')
    self._f.params = optax.apply_updates(self._f.params, updates)
    self._f.function_state = function_state
    self._optimizer_state = opt_state


def set_optimizer(self, new_optimizer):
    if jax.tree_util.tree_structure(new_optimizer.init(self._f.params)) != \
            jax.tree_util.tree_structure(self._optimizer_state):
        raise AttributeError('')
    self._optimizer = new_optimizer


def set_optimizer_state(self, new_optimizer_state):
    if jax.tree_util.tree_structure(new_optimizer_state) != \
            jax.tree_util.tree_structure(self._optimizer_state):
        raise AttributeError('')
    self._optimizer_state = new_optimizer_state
