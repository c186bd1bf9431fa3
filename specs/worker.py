"""Reference semantics of distributed workers."""
import inspect
import time

import gymnasium
from coax.wrappers import TrainMonitor


def remote(self):
    return isinstance(self.param_store, self.__ray.actor.ActorHandle)


class Worker:
    def __init__(self, env, param_store=None, pi=None, tracer=None, buffer=None,
                 buffer_warmup=None, name=None):
        if not isinstance(env, gymnasium.Env):
            if isinstance(env, str):
                env = gymnasium.make(env)
            elif hasattr(env, '__call__'):
                env = env()
            else:
                raise TypeError
        if getattr(getattr(env, 'spec', None), 'max_episode_steps', None) is None:
            raise ValueError
        if not isinstance(env, TrainMonitor):
            env = TrainMonitor(env, name=name, log_all_metrics=True)
        self.env = env
        self.param_store = param_store
        self.pi = pi
        self.tracer = tracer
        self.buffer = buffer
        self.buffer_warmup = buffer_warmup
        self.name = name

    def rollout(self):
        """one episode: every transition is traced once, in order"""
        assert self.pi is not None
        s, info = self.env.reset()
        for t in range(self.env.spec.max_episode_steps):
            a, logp = self.pi(s, return_logp=True)
            s_next, r, done, truncated, info = self.env.step(a)
            self.trace(s, a, r, done or truncated, logp)
            if done or truncated:
                break
            s = s_next

    def buffer_len(self):
        if self.param_store is None:
            assert self.buffer is not None
            return len(self.buffer)
        if isinstance(self.param_store, self.__ray.actor.ActorHandle):
            return self.__ray.get(self.param_store.buffer_len.remote())
        return self.param_store.buffer_len()

    def buffer_add(self, transition_batch, Adv=None):
        if self.param_store is None:
            assert self.buffer is not None
            if 'Adv' in inspect.signature(self.buffer.add).parameters:
                self.buffer.add(transition_batch, Adv=Adv)
            else:
                self.buffer.add(transition_batch)
        elif isinstance(self.param_store, self.__ray.actor.ActorHandle):
            self.__ray.get(self.param_store.buffer_add.remote(transition_batch, Adv))
        else:
            self.param_store.buffer_add(transition_batch, Adv)

    def buffer_update(self, transition_batch_idx, Adv):
        if self.param_store is None:
            assert self.buffer is not None
            self.buffer.update(transition_batch_idx, Adv=Adv)
        elif isinstance(self.param_store, self.__ray.actor.ActorHandle):
            self.__ray.get(self.param_store.buffer_update.remote(transition_batch_idx, Adv))
        else:
            self.param_store.buffer_update(transition_batch_idx, Adv)

    def pull_state(self):
        assert self.param_store is not None
        if isinstance(self.param_store, self.__ray.actor.ActorHandle):
            self.set_state(self.__ray.get(self.param_store.get_state.remote()))
        else:
            self.set_state(self.param_store.get_state())

    def push_state(self):
        assert self.param_store is not None
        if isinstance(self.param_store, self.__ray.actor.ActorHandle):
            self.__ray.get(self.param_store.set_state.remote(self.get_state()))
        else:
            self.param_store.set_state(self.get_state())

    def pull_metrics(self):
        if self.param_store is None:
            return self.env.get_metrics()
        if isinstance(self.param_store, self.__ray.actor.ActorHandle):
            return self.__ray.get(self.param_store.pull_metrics.remote()).copy()
        return self.param_store.pull_metrics()

    def push_metrics(self, metrics):
        if self.param_store is None:
            self.env.record_metrics(metrics)
        elif isinstance(self.param_store, self.__ray.actor.ActorHandle):
            self.__ray.get(self.param_store.push_metrics.remote(metrics))
        else:
            self.param_store.push_metrics(metrics)

    def buffer_sample(self, batch_size=32):
        """waits until there is enough to sample from"""
        warmup = max(self.buffer_warmup or 0, batch_size)
        wait_secs = 1 / 1024.
        n = self.buffer_len()
        while n < warmup:
            time.sleep(wait_secs)
            wait_secs = min(30, wait_secs * 2)
            n = self.buffer_len()
        if self.param_store is None:
            assert self.buffer is not None
            return self.buffer.sample(batch_size=batch_size)
        if isinstance(self.param_store, self.__ray.actor.ActorHandle):
            return self.__ray.get(self.param_store.buffer_sample.remote(batch_size=batch_size))
        return self.param_store.buffer_sample(batch_size=batch_size)

    def pull_getattr(self, name, default_value=...):
        if self.param_store is None:
            return get_nested(self, name, default_value)
        if isinstance(self.param_store, self.__ray.actor.ActorHandle):
            return self.__ray.get(self.param_store.pull_getattr.remote(name, default_value))
        return self.param_store.pull_getattr(name, default_value)

    def push_setattr(self, name, value):
        if self.param_store is None:
            set_nested(self, name, value)
        elif isinstance(self.param_store, self.__ray.actor.ActorHandle):
            self.__ray.get(self.param_store.push_setattr.remote(name, value))
        else:
            self.param_store.push_setattr(name, value)

    def rollout_loop(self, max_total_steps, reward_threshold=None):
        if reward_threshold is None:
            reward_threshold = getattr(getattr(self.env, 'spec', None), 'reward_threshold', None)
        if reward_threshold is None:
            reward_threshold = float('inf')
        T = self.pull_getattr('env.T')
        while T < max_total_steps and self.env.avg_G < reward_threshold:
            self.pull_state()
            self.rollout()
            metrics = self.pull_metrics()
            metrics['throughput/rollout_loop'] = 1000 / self.env.dt_ms
            T = self.pull_getattr('env.T') + self.env.t
            metrics['episode/T_global'] = T
            self.push_setattr('env.T', T)
            self.env.record_metrics(metrics)

    def learn_loop(self, max_total_steps, batch_size=32):
        throughput = 0.
        while self.pull_getattr('env.T') < max_total_steps:
            t_start = time.time()
            self.pull_state()
            metrics = self.learn(self.buffer_sample(batch_size=batch_size))
            metrics['throughput/learn_loop'] = throughput
            self.push_state()
            self.push_metrics(metrics)
            throughput = batch_size / (time.time() - t_start)


def get_nested(obj, name, default=...):
    if '.' not in name:
        return getattr(obj, name) if default is Ellipsis else getattr(obj, name, default)
    name, rest = name.split('.', 1)
    return get_nested(getattr(obj, name), rest, default)


def set_nested(obj, name, value):
    if '.' not in name:
        setattr(obj, name, value)
    else:
        name, rest = name.split('.', 1)
        set_nested(getattr(obj, name), rest, value)
