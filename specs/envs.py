"""Reference semantics of the connect-four game."""
import numpy as np
from dm_control import suite
from dm_env import specs
from gymnasium import spaces

from coax._base.errors import UnavailableActionError, EpisodeDoneError


def start(self):
    self._prev_action = None
    self._players = np.array([1, 2], dtype='uint8')
    self._state = np.zeros((self.num_rows, self.num_cols), dtype='uint8')
    self._levels = np.full(self.num_cols, self.num_rows - 1, dtype='uint8')
    self.done = False


def init_connect_four(self):
    start(self)


class ConnectFourEnv:
    def reset(self):
        start(self)
        return self.state

    def step(self, a):
        if self.done:
            raise EpisodeDoneError
        if not self.action_space.contains(a):
            raise ValueError
        if a not in self.available_actions:
            raise UnavailableActionError
        self._players = np.roll(self._players, -1)          # the other player's turn
        self._state[self._levels[a], a] = self._players[0]  # drop the token
        self._prev_action = a
        assert self.action_space.contains(a)
        self._levels[a] -= 1
        own = self._state == self._players[0]
        won = False
        for i in range(2, -1, -1):
            for j in range(4):
                if np.any(np.tensordot(self.filters, own[i:i + 4, j:j + 4]) == 4):
                    won = True
        self.done = won or len(self.available_actions) == 0
        return self.state, 1.0 if won else 0.0, self.done, {'state_id': self.state_id}

    @property
    def state(self):
        tokens = np.stack((
            (self._state == self._players[0]).astype('uint8'),
            (self._state == self._players[1]).astype('uint8')), axis=-1)
        mask = np.zeros((1, self.num_cols, self.num_players), dtype='uint8')
        mask[0, self.available_actions, :] = 1
        return np.concatenate((mask, tokens), axis=0)

    @property
    def state_id(self):
        player = str(self._players[0])
        done = '1' if self.done else '0'
        action = str(self.num_cols) if self._prev_action is None else str(self._prev_action)
        board = ''.join(self._state.ravel().astype('str'))
        return player + done + action + '{:017x}'.format(int(board, 3))

    def set_state(self, state_id):
        p, d, a = int(state_id[0], 16), int(state_id[1], 16), int(state_id[2], 16)
        assert p in (1, 2)
        assert d in (0, 1)
        assert self.action_space.contains(a) or a == self.num_cols
        self._players[0] = p
        self._players[1] = 3 - p
        self.done = d == 1
        self._prev_action = None if a == self.num_cols else a
        s = np.base_repr(int(state_id[3:], 16), 3)
        z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
        z[-len(s):] = np.array(list(s), dtype='uint8')
        self._state = z.reshape((self.num_rows, self.num_cols))
        self._levels = np.full(self.num_cols, self.num_rows - 1, dtype='uint8')
        for j in range(self.num_cols):
            for i in self._state[::-1, j]:
                if i == 0:
                    break
                self._levels[j] -= 1

    @property
    def available_actions(self):
        actions = np.argwhere((self._levels >= 0) & (self._levels < self.num_rows)).ravel()
        assert actions.size <= self.num_cols
        return actions

    @property
    def available_actions_mask(self):
        mask = np.zeros(self.num_cols, dtype='bool')
        mask[self.available_actions] = True
        return mask


# ------------------------------------------------------------------- DeepMind control suite
def flatten_obs(obs):
    pieces = []
    for v in obs.values():
        pieces.append(np.array([v]) if np.isscalar(v) else v.ravel())
    return np.concatenate(pieces, axis=0, dtype=np.float32)


def extract_min_max(s):
    assert s.dtype == np.float64 or s.dtype == np.float32
    dim = int(np.prod(s.shape))
    if type(s) == specs.Array:
        bound = np.inf * np.ones(dim, dtype=np.float32)
        return -bound, bound
    if type(s) == specs.BoundedArray:
        zeros = np.zeros(dim, dtype=np.float32)
        return s.minimum + zeros, s.maximum + zeros
    raise ValueError


def spec_to_box(*spec, dtype):
    mins, maxs = [], []
    for s in spec:
        mn, mx = extract_min_max(s)
        mins.append(mn)
        maxs.append(mx)
    low = np.concatenate(mins, axis=0).astype(dtype)
    high = np.concatenate(maxs, axis=0).astype(dtype)
    assert low.shape == high.shape
    return spaces.Box(low, high, dtype=dtype)


def init_dmc(self, domain, task, seed, height, width, camera_id, render_mode='rgb_array'):
    self.domain = domain
    self.task = task
    self.seed = seed
    self.height = height
    self.width = width
    self.camera_id = camera_id
    self.render_mode = render_mode
    make_env(self)


def make_env(self):
    self.dmc_env = suite.load(self.domain, self.task, task_kwargs=dict(random=self.seed))
    self.action_space = spec_to_box(self.dmc_env.action_spec(), dtype=np.float32)
    self.observation_space = spec_to_box(
        *self.dmc_env.observation_spec().values(), dtype=np.float32)


class DmcGymWrapper:
    def step(self, action):
        timestep = self.dmc_env.step(action)
        return flatten_obs(timestep.observation), timestep.reward, timestep.last(), False, {}

    def reset(self, seed=None, options=None):
        if seed is not None:
            self.seed = seed
            make_env(self)
        return flatten_obs(self.dmc_env.reset().observation), {}

    def render(self):
        return self.dmc_env.physics.render(
            height=self.height, width=self.width, camera_id=self.camera_id)
