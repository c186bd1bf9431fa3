"""Which inputs are refused (any exception)."""
import jax
import jax.numpy as jnp
import numpy as onp
from gymnasium.spaces import Discrete

from coax._core.policy import Policy
from coax.regularizers import Regularizer
from coax.utils import (is_policy, is_qfunction, is_reward_function, is_stochastic,
                        is_transition_model, is_vfunction)


def same_structure(a, b):
    return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b)


def params_setter(self, new_params):
    if not same_structure(new_params, self._params):
        raise TypeError


def state_setter(self, new_function_state):
    if not same_structure(new_function_state, self._function_state):
        raise TypeError


# -------------------------------------------------------------------------- updaters, objectives
def regularizer_ok(r):
    if not isinstance(r, (Regularizer, type(None))):
        raise TypeError


def value_ok(is_kind, f, f_targ, policy_regularizer):
    if not is_kind(f):
        raise TypeError
    if not (f_targ is None or is_kind(f_targ)):
        raise TypeError
    regularizer_ok(policy_regularizer)


def q_ok(q, q_targ, policy_regularizer):
    if not is_qfunction(q):
        raise TypeError
    if not (q_targ is None or isinstance(q_targ, (list, tuple)) or is_qfunction(q_targ)):
        raise TypeError
    regularizer_ok(policy_regularizer)


def init_v(self, v, v_targ=None, optimizer=None, loss_function=None, policy_regularizer=None):
    if not is_vfunction(v):
        raise TypeError
    if not (v_targ is None or is_vfunction(v_targ)):
        raise TypeError
    regularizer_ok(policy_regularizer)


def init_q(self, q, q_targ=None, optimizer=None, loss_function=None, policy_regularizer=None):
    q_ok(q, q_targ, policy_regularizer)


def init_expected(self, q, pi_targ, q_targ=None, optimizer=None, loss_function=None,
                  policy_regularizer=None):
    if not isinstance(q.action_space, Discrete):
        raise NotImplementedError
    if pi_targ is None or not is_policy(pi_targ):
        raise TypeError
    q_ok(q, q_targ, policy_regularizer)


def init_pi(self, q, pi_targ=None, q_targ=None, optimizer=None, loss_function=None,
            policy_regularizer=None):
    if pi_targ is not None and not is_policy(pi_targ):
        raise TypeError
    q_ok(q, q_targ, policy_regularizer)
    if pi_targ is None and not isinstance(q.action_space, Discrete):
        raise TypeError


def init_soft(self, q, q_targ=None, optimizer=None, loss_function=None, policy_regularizer=None,
              temperature=1.0):
    if not isinstance(q.action_space, Discrete):
        raise NotImplementedError
    if is_stochastic(q):
        raise NotImplementedError
    q_ok(q, q_targ, policy_regularizer)


def init_clipped(self, q, pi_targ_list=None, q_targ_list=None, optimizer=None, loss_function=None,
                 policy_regularizer=None):
    q_ok(q, None, policy_regularizer)
    if not isinstance(q.action_space, Discrete):
        if pi_targ_list is None or not isinstance(pi_targ_list, (tuple, list)):
            raise TypeError
        if len(pi_targ_list) < 1:
            raise ValueError
        for pi_targ in pi_targ_list:
            if not is_policy(pi_targ):
                raise TypeError
    if not isinstance(q_targ_list, (tuple, list)):
        raise TypeError
    if not q_targ_list:
        raise ValueError
    for q_targ in q_targ_list:
        if not is_qfunction(q_targ):
            raise TypeError
    if isinstance(q.action_space, Discrete):
        if len(q_targ_list) < 2:
            raise ValueError
    elif len(q_targ_list) * len(pi_targ_list) < 2:
        raise ValueError


def init_vanillapg(self, pi, optimizer=None, regularizer=None):
    if not isinstance(pi, Policy):
        raise TypeError
    regularizer_ok(regularizer)


def init_ppoclip(self, pi, optimizer=None, regularizer=None, epsilon=0.2):
    init_vanillapg(self, pi, optimizer, regularizer)


def init_deterministicpg(self, pi, q_targ, optimizer=None, regularizer=None):
    if not is_qfunction(q_targ):
        raise TypeError
    if q_targ.modeltype != 1:
        raise TypeError
    init_vanillapg(self, pi, optimizer, regularizer)


def init_softpg(self, pi, q_targ_list, optimizer=None, regularizer=None):
    init_vanillapg(self, pi, optimizer, regularizer)
    if not isinstance(q_targ_list, (tuple, list)):
        raise TypeError
    if not q_targ_list:
        raise ValueError
    for q_targ in q_targ_list:
        if not is_qfunction(q_targ):
            raise TypeError


def init_model(self, model, optimizer=None, loss_function=None, regularizer=None):
    if not (is_reward_function(model) or is_transition_model(model)):
        raise TypeError
    regularizer_ok(regularizer)


# ------------------------------------------------------------------------------ single transitions
ARRAY = (int, float, onp.ndarray, jnp.ndarray)


def from_single(cls, s, a, logp, r, done, gamma, s_next=None, a_next=None, logp_next=None, w=1,
                idx=None, extra_info=None):
    if not (isinstance(logp, ARRAY) and onp.all(logp <= 0)):
        raise TypeError
    if not isinstance(r, ARRAY):
        raise TypeError
    if not isinstance(done, bool):
        raise TypeError
    if not (isinstance(gamma, (float, int)) and 0 <= gamma and gamma <= 1):
        raise TypeError
    if not (logp_next is None or (isinstance(logp_next, ARRAY) and onp.all(logp_next <= 0))):
        raise TypeError
    if not (isinstance(w, (float, int)) and w > 0):
        raise TypeError


def soft_update(self, other, tau):
    if not isinstance(other, self.__class__):
        raise TypeError
    if not same_structure(other.params, self._params):
        raise TypeError
    if not same_structure(other.function_state, self._function_state):
        raise TypeError
