"""What the constructors of updaters keep of their arguments."""
import optax

from coax.value_losses import huber


def base(self, f, f_targ, optimizer, loss_function, policy_regularizer):
    self._f = f
    self._f_targ = f if f_targ is None else f_targ       # without target network: bootstrap itself
    self.loss_function = huber if loss_function is None else loss_function
    self.policy_regularizer = policy_regularizer
    self._optimizer = optax.adam(1e-3) if optimizer is None else optimizer
    self._optimizer_state = self._optimizer.init(f.params)


def init_v(self, v, v_targ=None, optimizer=None, loss_function=None, policy_regularizer=None):
    base(self, v, v_targ, optimizer, loss_function, policy_regularizer)


def init_q(self, q, q_targ=None, optimizer=None, loss_function=None, policy_regularizer=None):
    base(self, q, q_targ, optimizer, loss_function, policy_regularizer)


def init_expected(self, q, pi_targ, q_targ=None, optimizer=None, loss_function=None,
                  policy_regularizer=None):
    base(self, q, q_targ, optimizer, loss_function, policy_regularizer)
    self.pi_targ = pi_targ


def init_pi(self, q, pi_targ=None, q_targ=None, optimizer=None, loss_function=None,
            policy_regularizer=None):
    base(self, q, q_targ, optimizer, loss_function, policy_regularizer)
    self.pi_targ = pi_targ


def init_soft(self, q, q_targ=None, optimizer=None, loss_function=None, policy_regularizer=None,
              temperature=1.0):
    base(self, q, q_targ, optimizer, loss_function, policy_regularizer)
    self.temperature = temperature


def init_clipped(self, q, pi_targ_list=None, q_targ_list=None, optimizer=None, loss_function=None,
                 policy_regularizer=None):
    base(self, q, None, optimizer, loss_function, policy_regularizer)
    self.q_targ_list = q_targ_list
    self.pi_targ_list = [] if pi_targ_list is None else pi_targ_list


def objective(self, pi, optimizer, regularizer):
    self._pi = pi
    self._regularizer = regularizer
    self._optimizer = optax.adam(1e-3) if optimizer is None else optimizer
    self._optimizer_state = self._optimizer.init(pi.params)


def init_vanillapg(self, pi, optimizer=None, regularizer=None):
    objective(self, pi, optimizer, regularizer)


def init_ppoclip(self, pi, optimizer=None, regularizer=None, epsilon=0.2):
    objective(self, pi, optimizer, regularizer)
    self.epsilon = epsilon


def init_deterministicpg(self, pi, q_targ, optimizer=None, regularizer=None):
    objective(self, pi, optimizer, regularizer)
    self.q_targ = q_targ


def init_softpg(self, pi, q_targ_list, optimizer=None, regularizer=None):
    objective(self, pi, optimizer, regularizer)
    self.q_targ_list = q_targ_list


def init_model(self, model, optimizer=None, loss_function=None, regularizer=None):
    self.model = model
    self.loss_function = huber if loss_function is None else loss_function
    self.regularizer = regularizer
    self._optimizer = optax.adam(1e-3) if optimizer is None else optimizer
    self._optimizer_state = self._optimizer.init(model.params)
