"""Reference semantics of the environment wrappers."""
import datetime
import inspect
import os
import re
import time
from collections import deque
from typing import Mapping

import cloudpickle as pickle
import gymnasium
import lz4.frame
import numpy as onp
from gymnasium.spaces import Discrete
from scipy.special import expit
from tensorboardX import SummaryWriter

from coax.wrappers._train_monitor import StreamingSample as ActionSample


# ---------------------------------------------------------------------------------- training log
class StreamingSample:
    """uniform sample (without replacement) of everything appended since the last reset"""

    def __init__(self, maxlen, random_seed=None):
        self._deque = deque(maxlen=maxlen)
        self._count = 0
        self._rnd = onp.random.RandomState(random_seed)

    def reset(self):
        self._deque = deque(maxlen=self._deque.maxlen)
        self._count = 0

    def append(self, obj):
        self._count = self._count + 1
        if len(self._deque) < self._deque.maxlen:
            self._deque.append(obj)
        else:
            if self._rnd.rand() < self._deque.maxlen / self._count:
                self._deque[self._rnd.randint(self._deque.maxlen)] = obj

    @property
    def values(self):
        return list(self._deque)

    @property
    def maxlen(self):
        return self._deque.maxlen

    def __len__(self):
        return len(self._deque)

    def __bool__(self):
        return bool(self._deque)


def use_tensorboard(self, tensorboard_dir):
    if tensorboard_dir is None:
        self._tensorboard_dir = None
        self._tensorboard = None
    else:
        if not re.match(r'.*/\d{8}_\d{6}$', tensorboard_dir):
            tensorboard_dir = os.path.join(
                tensorboard_dir, datetime.datetime.now().strftime('%Y%m%d_%H%M%S'))
        if tensorboard_dir != getattr(self, '_tensorboard_dir', None):
            self._tensorboard_dir = tensorboard_dir
            if hasattr(self, '_tensorboard'):
                del self._tensorboard


def init_monitor(self, env, tensorboard_dir=None, tensorboard_write_all=False,
                 log_all_metrics=False, smoothing=10, **logger_kwargs):
    self.log_all_metrics = log_all_metrics
    self.tensorboard_write_all = tensorboard_write_all
    self.smoothing = float(smoothing)
    reset_monitor(self)
    use_tensorboard(self, tensorboard_dir)


def reset_monitor(self):
    self.T = 0
    self.ep = 0
    self.t = 0
    self.G = 0.0
    self.avg_G = 0.0
    self._n_avg_G = 0.0
    self._ep_starttime = time.time()
    self._ep_metrics = {}
    self._ep_actions = ActionSample(maxlen=1000)
    self._period = {'T': {}, 'ep': {}}


def episode_logs(self):
    if self.tensorboard is None:
        return
    self.tensorboard.add_scalar('episode/episode', float(self.ep), global_step=self.T)
    self.tensorboard.add_scalar('episode/avg_reward', float(self.avg_r), global_step=self.T)
    self.tensorboard.add_scalar('episode/return', float(self.G), global_step=self.T)
    self.tensorboard.add_scalar('episode/steps', float(self.t), global_step=self.T)
    self.tensorboard.add_scalar(
        'episode/avg_step_duration_ms', float(self.dt_ms), global_step=self.T)
    if self._ep_actions:
        if isinstance(self.action_space, Discrete):
            bins = onp.arange(self.action_space.n + 1)
        else:
            bins = 'auto'
        self.tensorboard.add_histogram(
            tag='actions', values=self._ep_actions.values, global_step=self.T, bins=bins)
    if self._ep_metrics and not self.tensorboard_write_all:
        for k, (x, n) in self._ep_metrics.items():
            self.tensorboard.add_scalar(str(k), float(x) / n, global_step=self.T)
    self.tensorboard.flush()


def reset_with_logs(self, **kwargs):
    if self.ep:
        episode_logs(self)
    self.T += 1
    self.ep += 1
    self.t = 0
    self.G = 0.0
    self._ep_starttime = time.time()
    self._ep_metrics = {}
    self._ep_actions.reset()
    return self.env.reset(**kwargs)


class TrainMonitor:
    def reset_global(self):
        self.T = 0
        self.ep = 0
        self.t = 0
        self.G = 0.0
        self.avg_G = 0.0
        self._n_avg_G = 0.0
        self._ep_starttime = time.time()
        self._ep_metrics = {}
        self._ep_actions = ActionSample(maxlen=1000)
        self._period = {'T': {}, 'ep': {}}

    def reset(self, **kwargs):
        if self.ep:
            self._write_episode_logs()
        self.T += 1
        self.ep += 1
        self.t = 0
        self.G = 0.0
        self._ep_starttime = time.time()
        self._ep_metrics = {}
        self._ep_actions.reset()
        return self.env.reset(**kwargs)

    def step(self, a):
        self._ep_actions.append(a)
        s_next, r, done, truncated, info = self.env.step(a)
        info = {} if info is None else info
        info['monitor'] = {'T': self.T, 'ep': self.ep}
        self.t += 1
        self.T += 1
        self.G += r
        if done or truncated:
            if self._n_avg_G < self.smoothing:
                self._n_avg_G += 1.0
            self.avg_G += (self.G - self.avg_G) / self._n_avg_G
        return s_next, r, done, truncated, info

    @property
    def dt_ms(self):
        if self.t <= 0:
            return onp.nan
        return 1000 * (time.time() - self._ep_starttime) / self.t

    @property
    def avg_r(self):
        if self.t <= 0:
            return onp.nan
        return self.G / self.t

    def record_metrics(self, metrics):
        if not isinstance(metrics, Mapping):
            raise TypeError
        if self.tensorboard is not None and self.tensorboard_write_all:
            for name, metric in metrics.items():
                self.tensorboard.add_scalar(str(name), float(metric), global_step=self.T)
        for k, v in metrics.items():
            if k in self._ep_metrics:
                x, n = self._ep_metrics[k]
                self._ep_metrics[k] = x + v, n + 1
            else:
                self._ep_metrics[k] = v, 1.

    def get_metrics(self):
        return {k: float(x) / n for k, (x, n) in self._ep_metrics.items()}

    def period(self, name, T_period=None, ep_period=None):
        if T_period is not None:
            T_period = int(T_period)
            assert T_period > 0
            if name not in self._period['T']:
                self._period['T'][name] = 1
            if self.T >= self._period['T'][name] * T_period:
                self._period['T'][name] += 1
                return True
        if ep_period is not None:
            ep_period = int(ep_period)
            assert ep_period > 0
            if name not in self._period['ep']:
                self._period['ep'][name] = 1
            if self.ep >= self._period['ep'][name] * ep_period:
                self._period['ep'][name] += 1
                return True
        return False

    @property
    def tensorboard(self):
        if not hasattr(self, '_tensorboard'):
            assert self._tensorboard_dir is not None
            self._tensorboard = SummaryWriter(self._tensorboard_dir)
        return self._tensorboard

    def get_counters(self):
        return {k: getattr(self, k) for k in (
            'T', 'ep', 't', 'G', 'avg_G', '_n_avg_G', '_ep_starttime',
            '_ep_metrics', '_ep_actions', '_tensorboard_dir', '_period')}

    def set_counters(self, counters):
        self.T = counters['T']
        self.ep = counters['ep']
        self.t = counters['t']
        self.G = counters['G']
        self.avg_G = counters['avg_G']
        self._n_avg_G = counters['_n_avg_G']
        self._ep_starttime = counters['_ep_starttime']
        self._ep_metrics = counters['_ep_metrics']
        self._ep_actions = counters['_ep_actions']
        self._period = counters['_period']
        use_tensorboard(self, counters['_tensorboard_dir'])

    def save_counters(self, filepath):
        counters = self.get_counters()
        os.makedirs(os.path.dirname(filepath) or '.', exist_ok=True)
        with lz4.frame.open(filepath, 'wb') as f:
            f.write(pickle.dumps(counters))

    def load_counters(self, filepath):
        with lz4.frame.open(filepath, 'rb') as f:
            counters = pickle.loads(f.read())
        self.set_counters(counters)


# ------------------------------------------------------------------------------------- wrappers
class FrameStacking:
    def __init__(self, env, num_frames):
        if not (isinstance(num_frames, int) and num_frames > 0):
            raise TypeError
        self.observation_space = gymnasium.spaces.Tuple((self.env.observation_space,) * num_frames)
        self._frames = deque(maxlen=num_frames)

    def step(self, action):
        observation, reward, done, truncated, info = self.env.step(action)
        self._frames.append(observation)
        return tuple(self._frames), reward, done, truncated, info

    def reset(self, **kwargs):
        observation, info = self.env.reset(**kwargs)
        for _ in range(self._frames.maxlen):
            self._frames.append(observation)
        return tuple(self._frames), info


class MetaPolicyEnv:
    def __init__(self, env, *arms):
        self.arms = arms
        self.action_space = gymnasium.spaces.Discrete(len(arms))
        self._s = None

    def reset(self, **kwargs):
        s, info = self.env.reset(**kwargs)
        self._s = s
        return s, info

    def step(self, a_meta):
        assert self.action_space.contains(a_meta)
        assert self._s is not None
        pi = self.arms[a_meta]
        if 'return_logp' in inspect.signature(pi).parameters:
            a, logp = pi(self._s, return_logp=True)
        else:
            a, logp = pi(self._s), 0.
        self._s, r, done, truncated, info = self.env.step(a)
        info = info or {}
        info.update({'a': a, 'logp': logp})
        return self._s, r, done, truncated, info


def note_action(self, info):
    if not isinstance(info, Mapping):
        assert info is None
        info = {}
    if 'a_orig' in info:
        info['a_orig'].append(self._a_orig)
    else:
        info['a_orig'] = [self._a_orig]


class BoxActionsToReals:
    def __init__(self, env):
        if not isinstance(self.action_space, gymnasium.spaces.Box):
            raise NotImplementedError
        n = (onp.prod(self.env.action_space.shape),)
        self.action_space = gymnasium.spaces.Box(
            low=onp.full(n, -1e15, self.env.action_space.dtype),
            high=onp.full(n, 1e15, self.env.action_space.dtype))

    def step(self, a):
        assert self.action_space.contains(a)
        hi, lo = self.env.action_space.high, self.env.action_space.low
        x = onp.reshape(onp.clip(a, -1e15, 1e15), self.env.action_space.shape)
        self._a_orig = lo + (hi - lo) * expit(x)
        s_next, r, done, truncated, info = self.env.step(self._a_orig)
        note_action(self, info)
        return s_next, r, done, truncated, info


class BoxActionsToDiscrete:
    def step(self, a):
        assert self.action_space.contains(a)
        hi, lo = self.env.action_space.high, self.env.action_space.low
        x = (a + self._rnd.rand(self._size)) / self._nvec
        self._a_orig = lo + onp.reshape(x, self.env.action_space.shape) * (hi - lo)
        s_next, r, done, truncated, info = self.env.step(self._a_orig)
        note_action(self, info)
        return s_next, r, done, truncated, info

    def __init__(self, env, num_bins, random_seed=None):
        if not isinstance(self.action_space, gymnasium.spaces.Box):
            raise NotImplementedError
        self._rnd = onp.random.RandomState(random_seed)
        self._size = onp.prod(self.env.action_space.shape)
        if isinstance(num_bins, int):
            self._nvec = [num_bins] * self._size
        elif isinstance(num_bins, tuple) and all(isinstance(i, int) for i in num_bins):
            if len(num_bins) != self._size:
                raise ValueError
            self._nvec = onp.asarray(num_bins)
        else:
            raise TypeError
        if self._size == 1:
            self.action_space = gymnasium.spaces.Discrete(self._nvec[0])
        else:
            self.action_space = gymnasium.spaces.MultiDiscrete(self._nvec)
