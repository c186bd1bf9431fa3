"""Which obligations decide which property."""
from sa import terms as t
from sa.check import GuardObl, KeyObl, Obl, Result, Suite, pytree_node, show, spec_members

NOSUITE = {}


def members(suite, spec, cls, skip=(), per=None, **kw):
    """one obligation per member of the reference class"""
    out = []
    for (k, n) in spec_members(suite.spec(spec), kw.get('refcls') or cls):
        kind = 'init' if n == '__init__' else k
        if n in skip or (kind, n) in skip:
            continue
        k2 = dict(kw)
        k2.update((per or {}).get(n, {}))
        out.append(Obl(spec, cls=cls, name=n, kind=kind, **k2))
    return out


# ------------------------------------------------------------------------------ reward tracing
def tracer(suite, c, **kw):
    return members(suite, 'tracing', c, opaque_methods={'from_single'}, **kw) + [
        Obl('tracing', cls=c, name='flush', ref='flush', opaque_methods={'pop', '__bool__'})]


def t01(suite):
    return tracer(suite, 'NStep', lens=[('_gammas', 'n')])


def t02(suite):
    return tracer(suite, 'MonteCarlo')


def t03(suite):
    m = 'coax.reward_tracing._transition'
    cls = suite.ix.cls('TransitionBatch')
    return members(suite, 'batch', 'TransitionBatch') + [
        Obl('batch', func=(m, 'flatten'), label='(pytree)',
            finder=pytree_node(m, 'TransitionBatch', 0),
            args={'tn': lambda e: e.instance(cls, 'tn')}),
        Obl('batch', func=(m, 'unflatten'), label='(pytree)',
            finder=pytree_node(m, 'TransitionBatch', 1))]


# --------------------------------------------------------------------------- experience replay
def r01(suite):
    return members(suite, 'replay', 'SimpleReplayBuffer', opaque_methods={'to_singles'})


def r02(suite):
    return members(suite, 'replay', 'PrioritizedReplayBuffer')


def r03(suite):
    out = []
    for c in ('SegmentTree', 'SumTree', 'MinTree', 'MaxTree'):
        out += members(suite, 'segtree', c, per={'__getitem__': {
            'opaque_methods': {'__getitem__'}}})
    return out


# --------------------------------------------------------------------------------- TD learning
VC = ['SimpleTD']
PQ = ['ExpectedSarsa', 'QLearning', 'DoubleQLearning']
QC = ['Sarsa', 'SoftQLearning'] + PQ
CC = ['ClippedDoubleQLearning', 'SoftClippedDoubleQLearning']
TD = VC + QC + CC


def inits(classes, spec='construct', make=None):
    o = []
    make = make or (lambda *a, **kw: Obl(*a, rejects=True, **kw))
    for c in classes:
        r = 'init_v' if c in VC else 'init_expected' if c == 'ExpectedSarsa' else \
            'init_pi' if c in PQ else 'init_clipped' if c in CC else \
            'init_soft' if c == 'SoftQLearning' else 'init_model' if c == 'ModelUpdater' else \
            'init_' + c.lower() if c in OBJ else 'init_q'
        o.append(make(spec, cls=c, name='__init__', kind='init', ref=r))
    return o


def u01(suite):
    o = inits(TD)
    for c in TD:
        x = 'v' if c in VC else 'q'
        for st in (True, False):
            if c == 'SoftQLearning' and st:
                continue
            w = [(f'is_stochastic(self.{x})', st)]
            o.append(Obl('td', cls=c, name='target_func', when=w, traced=True))
        k = 'v' if c in VC else 'soft' if c == 'SoftQLearning' else 'pi' if c in PQ else \
            'clipped' if c in CC else 'q'
        o.append(Obl('td', cls=c, name='target_params', kind='prop', ref='target_params_' + k))
        o.append(Obl('td', cls=c, name='target_function_state', kind='prop',
                     ref='target_state_' + ('q' if k == 'soft' else k)))
    return o


def u02(suite):
    o = inits(TD)
    for c in TD:
        x = 'v' if c in VC else 'q'
        kind = 'v' if c in VC else 'clipped' if c in CC else 'q'
        for st in (None, 'DiscretizedIntervalDist', 'EmpiricalQuantileDist'):
            if c == 'SoftQLearning' and st:
                continue
            for reg in (True, False):
                w = [(f'is_stochastic(self.{x})', bool(st)),
                     ('self.policy_regularizer is None', not reg)]
                if st:
                    w.append((f'isinstance(self.{x}.proba_dist, DiscretizedIntervalDist)',
                              st[0] == 'D'))
                if st and st[0] == 'E':
                    w.append((f'isinstance(self.{x}.proba_dist, EmpiricalQuantileDist)', True))
                for m, r in (('grads_and_metrics', 'grads_'), ('td_error', 'td_error_')):
                    o.append(Obl('td', cls=c, name=m, ref=r + kind, when=w, opaque_methods={
                        'target_func', 'target_params', 'target_function_state'},
                        opaque_funcs={'get_grads_diagnostics', 'quantile_huber'}))
    return o


OBJ = ('VanillaPG', 'PPOClip', 'DeterministicPG', 'SoftPG')


def u03(suite):
    o = inits(TD + list(OBJ) + ['ModelUpdater'])
    for c in TD:
        o.append(Obl('td', cls=c, name='update', ref='update',
                     opaque_methods={'grads_and_metrics'}))
        o.append(Obl('td', cls=c, name='apply_grads', ref='step'))
        o.append(Obl('td', cls=c, name='optimizer', kind='setter', ref='set_optimizer'))
        o.append(Obl('td', cls=c, name='optimizer_state', kind='setter',
                     ref='set_optimizer_state'))
    for c in OBJ:
        noadv = c in ('DeterministicPG', 'SoftPG')
        o.append(Obl('objectives', cls=c, name='update', ref='objective_update' + (
            '_noadv' if noadv else ''), opaque_methods={'grads_and_metrics'}))
        o.append(Obl('objectives', cls=c, name='apply_grads', ref='objective_step'))
        o.append(Obl('objectives', cls=c, name='optimizer', kind='setter',
                     ref='objective_set_optimizer'))
        o.append(Obl('objectives', cls=c, name='optimizer_state', kind='setter',
                     ref='objective_set_optimizer_state'))
    for n, k in (('update', 'method'), ('apply_grads', 'method'), ('optimizer', 'prop'),
                 ('optimizer', 'setter'), ('optimizer_state', 'prop'),
                 ('optimizer_state', 'setter')):
        o.append(Obl('objectives', cls='ModelUpdater', name=n, kind=k,
                     opaque_methods={'grads_and_metrics'}))
    return o


# --------------------------------------------------- policy objectives, regularizers, models
GG = {'opaque_funcs': {'get_grads_diagnostics'}}


def o01(suite):
    o = inits(OBJ)
    for c in OBJ:
        if c == 'DeterministicPG':
            for st in (True, False):
                o.append(Obl('objectives', cls=c, name='objective_func',
                             when=[('is_stochastic(self.q_targ)', st)], traced=True))
        else:
            o.append(Obl('objectives', cls=c, name='objective_func', traced=True))
        noadv = c in ('DeterministicPG', 'SoftPG')
        o.append(Obl('objectives', cls=c, name='hyperparams', kind='prop',
                     ref='hyperparams_default' if c == 'VanillaPG' else None))
        for reg in (True, False):
            o.append(Obl('objectives', cls=c, name='grads_and_metrics',
                         ref=None if noadv else 'objective_gradient',
                         when=[('self.regularizer is None', reg)],
                         opaque_methods={'objective_func', 'hyperparams'}, **GG))
    return o


def o02(suite):
    o = []
    for c, p in (('EntropyRegularizer', 'entropy'), ('KLDivRegularizer', 'kl')):
        o.append(Obl('objectives', cls=c, name='function', kind='prop', ref=p + '_function'))
        o.append(Obl('objectives', cls=c, name='metrics_func', kind='prop', ref=p + '_metrics'))
        o.append(Obl('objectives', cls=c, name='hyperparams', kind='prop',
                     ref=p + '_hyperparams'))
        o.append(Obl('objectives', cls=c, name='__init__', kind='init', ref=p + '_init'))
        o.append(Obl('objectives', cls=c, name='batch_eval', kind='prop', refcls='Regularizer',
                     opaque_methods={'function', 'metrics_func'}))
    return o


def m01(suite):
    o = inits(['ModelUpdater']) + [Obl('objectives', cls='ModelUpdater', name='hyperparams', kind='prop')]
    for st, reg in ((True, True), (True, False), (False, True)):
        o.append(Obl('objectives', cls='ModelUpdater', name='grads_and_metrics',
                     when=[('is_stochastic(self.model)', st), ('self.regularizer is None', reg)],
                     opaque_methods={'hyperparams'}, **GG))
    return o


# ------------------------------------------------------------------- value losses, transforms
def v01(suite):
    m = 'coax.value_losses._losses'
    return [Obl('values', func=(m, n), scalars=['delta']) for n in (
        'mse', 'huber', 'logloss', 'logloss_sign', 'quantile_huber')]


def v02(suite):
    return members(suite, 'values', 'ValueTransform') + members(suite, 'values', 'LogTransform')


# -------------------------------------------------------------------------- distributions
def d01(suite):
    return members(suite, 'dists', 'CategoricalDist') + [
        Obl('dists', cls='CategoricalDist', name='__init__', kind='init', ref='init_categorical',
            rejects=True)]


def d02(suite):
    return members(suite, 'dists', 'DiscretizedIntervalDist') + members(
        suite, 'dists', 'DiscretizedIntervalDist', refcls='CategoricalDist',
        skip=('preprocess_variate', 'postprocess_variate', 'space', 'gumbel_softmax_tau')
    ) + members(suite, 'dists', 'EmpiricalQuantileDist') + [
        Obl('dists', cls='EmpiricalQuantileDist', name='__init__', kind='init',
            ref='init_quantile', rejects=True),
        Obl('dists', cls='DiscretizedIntervalDist', name='__init__', kind='init',
            ref='init_discretized', rejects=True)]


def d03(suite):
    return members(suite, 'dists', 'NormalDist') + members(
        suite, 'dists', 'SquashedNormalDist') + [
        Obl('dists', cls='NormalDist', name='__init__', kind='init', ref='init_normal',
            rejects=True),
        Obl('dists', cls='SquashedNormalDist', name='__init__', kind='init', ref='init_squashed',
            rejects=True)]


SPACES = ('Discrete', 'Box', 'MultiDiscrete', 'MultiBinary', 'Tuple', 'Dict')


def d04(suite):
    o = []
    for sp in SPACES:
        w = [(f'isinstance(init__space, gymnasium.spaces.{x})', x == sp) for x in SPACES]
        w.append(('isinstance(init__space, gymnasium.Space)', True))
        o += members(suite, 'dists', 'ProbaDist', when=w)
        o.append(Obl('dists', cls='ProbaDist', name='__init__', kind='init',
                     ref='init_composite', rejects=True, when=w))
    return o


# ------------------------------------------------------------------ function approximators
FUNCS = {'Q': 'q', 'V': 'v', 'RewardFunction': 'q', 'Policy': 'policy', 'TransitionModel': 'model',
         'StochasticTransitionModel': 'stochastic_model', 'StochasticQ': 'stochastic_q',
         'StochasticV': 'stochastic_v', 'StochasticRewardFunction': 'stochastic_r'}


OQ = {'opaque_funcs': {'default_preprocessor', 'safe_sample'},
      'opaque_methods': {'example_data', '_check_output'}}


OS = {'opaque_funcs': OQ['opaque_funcs'], 'opaque_methods': OQ['opaque_methods'] | {
    f'{k}_func{t}' for k in ('sample', 'mean', 'mode') for t in ('', '_type1', '_type2')}}


def c01(suite):
    o = []
    for c in FUNCS:
        o += members(suite, 'core', c, refcls='BaseFunc', skip=('rng',), **OQ)
        o.append(Obl('core', cls=c, name='soft_update', ref='soft_update', **OQ))
    return o


def x02(suite):
    return [Obl('core', cls=c, name='__init__', kind='init', ref='init_' + r, rejects=True,
                when=[('init__env.action_space is None', False)],
                opaque_methods=OQ['opaque_methods'],
                opaque_funcs=OQ['opaque_funcs'] | {'must_be_' + x for x in (
                    'array_like', 'tree_like', 'type1_or_2', 'type2', 'range')}
                | {'must_have_spaces'})
            for c, r in FUNCS.items()]


def c02(suite):
    """single-value functions: Q, V, deterministic models"""
    o = members(suite, 'core', 'Q', **OQ) + members(suite, 'core', 'RewardFunction', refcls='Q', **OQ)
    o += members(suite, 'core', 'V', **OQ) + members(suite, 'core', 'TransitionModel', **OQ)
    return o


def c03(suite):
    """distributional functions: StochasticQ, StochasticV, stochastic models, policies"""
    o = []
    for c, r in (('StochasticQ', None), ('StochasticRewardFunction', 'StochasticQ'),
                 ('StochasticTransitionModel', None)):
        o += members(suite, 'core', c, refcls=r, **OS)
        o += members(suite, 'core', c, refcls='StochasticType1', **OQ)
    for c in ('StochasticV', 'Policy'):
        o += members(suite, 'core', c, **OS)
        o += members(suite, 'core', c, refcls='StochasticType2', **OQ)
    return o


def p01(suite):
    o = members(suite, 'policies', 'RandomPolicy', per={'__init__': {'rejects': True}})
    for c, r in (('EpsilonGreedy', 'epsilon_greedy'), ('BoltzmannPolicy', 'boltzmann')):
        o.append(Obl('policies', cls=c, name='__init__', kind='init', ref='init_' + r,
                     rejects=True))
        for st in (True, False):
            w = [('is_stochastic(self.q)', st)]
            o += members(suite, 'policies', c, when=w)
        o += members(suite, 'policies', c, refcls='ValueBased')
        o += members(suite, 'core', c, refcls='Policy', opaque_methods=OS['opaque_methods'])
        o += members(suite, 'core', c, refcls='StochasticType2')
    return o


def c04(suite):
    o = [Obl('policies', cls='SuccessorStateQ', name='__init__', kind='init',
             ref='init_successor', rejects=True)]
    for n, k in (('rng', 'prop'), ('params', 'prop'), ('function_state', 'prop')):
        o.append(Obl('policies', cls='SuccessorStateQ', name=n, kind=k))
    o.append(Obl('policies', cls='SuccessorStateQ', name='__call__',
                 opaque_methods={'function_type1', 'function_type2'}))
    for n in ('function_type1', 'function_type2'):
        for i in range(8):
            w = [(f'is_stochastic(self.{x})', bool(i >> k & 1)) for k, x in enumerate('vpr')]
            o.append(Obl('policies', cls='SuccessorStateQ', name=n, kind='prop', when=w))
    return o


COUNTERS = ('T', 'ep', 't', 'G', 'avg_G', '_n_avg_G', '_ep_starttime', '_ep_metrics', '_ep_actions',
            '_tensorboard_dir', '_period')


def symbolic_dict(keys):
    return lambda e: e.newref(t.dct([(t.const(k), t.mk('loc', t.sym('val:' + k))) for k in keys]))


def w01(suite):
    return [
        Obl('wrappers', cls='TrainMonitor', name='__init__', kind='init', ref='init_monitor',
            rejects=True, stale=False, lazy=False),
        Obl('wrappers', cls='TrainMonitor', name='reset', ref='reset_with_logs',
            opaque_methods={'tensorboard', 'dt_ms', 'avg_r'}, label='(episode log)')] + members(suite, 'wrappers', 'StreamingSample') + members(
        suite, 'wrappers', 'TrainMonitor', opaque_methods={'_write_episode_logs'}, stale=False, per={
            'record_metrics': {'opaque_methods': {'tensorboard'}},
            'save_counters': {'opaque_methods': {'get_counters'}},
            'set_counters': {'lazy': False, 'args': {'counters': symbolic_dict(COUNTERS)}},
            'load_counters': {'opaque_methods': {'set_counters'}}})


def w02(suite):
    o = []
    for c in ('FrameStacking', 'MetaPolicyEnv', 'BoxActionsToReals', 'BoxActionsToDiscrete'):
        o += members(suite, 'wrappers', c, per={'__init__': {'rejects': True}})
    return o


CALLS = {'pull_getattr', 'push_setattr', 'pull_state', 'push_state', 'rollout', 'pull_metrics',
         'push_metrics', 'learn', 'buffer_sample'}


def k01(suite):
    o = members(suite, 'worker', 'Worker', skip=('pull_getattr', 'push_setattr'), per={
        'rollout_loop': {'effectful': CALLS}, 'learn_loop': {'effectful': CALLS},
        'buffer_sample': {'effectful': {'buffer_len'}}, 'rollout': {'effectful': {'trace'}}})
    for n in ('pull_getattr', 'push_setattr'):
        for nm in ('env.T', 'tracer'):
            o.append(Obl('worker', cls='Worker', name=n, label=f'({nm!r})',
                         args={'name': t.const(nm)}))
    return o


def init_params(suite, c):
    f = suite.ix.cls(c).lookup('__init__')[1].args
    return {a.arg for a in f.posonlyargs + f.args + f.kwonlyargs}


OE = {'opaque_funcs': OQ['opaque_funcs'], 'opaque_methods': {'example_data'}}


def e01(suite):
    o = []
    for c, r in FUNCS.items():
        given = [('init__env.action_space is None', False)] + [
            (f'init__{x} is None', False) for x in (
                'random_seed', 'observation_preprocessor', 'observation_postprocessor',
                'action_preprocessor', 'value_transform', 'proba_dist', 'value_range')
            if x in init_params(suite, c)]
        for one in (False,) if c in ('V', 'Policy', 'StochasticV') else (True, False):
            o.append(GuardObl(
                'core', cls=c, name='__init__', kind='init', ref='init_' + r, **OE,
                when=given + [("names(init__func) == ('S', 'A', 'is_training')", one)] + (
                    [("names(init__func) == ('S', 'is_training')", False)] if one else [])))
        o.append(GuardObl('refusals', cls=c, name='params', kind='setter', ref='params_setter',
                          **OQ))
        o.append(GuardObl('refusals', cls=c, name='function_state', kind='setter',
                          ref='state_setter', **OQ))
    o += inits(TD + list(OBJ) + ['ModelUpdater'], 'refusals', GuardObl)
    o.append(GuardObl('refusals', cls='TransitionBatch', name='from_single', kind='classmethod',
                      ref='from_single'))
    return o


def x01(suite):
    """PRNG keys, over every entry point that handles them"""
    out, seen = [], set()
    for f in (u01, u02, u03, o01, o02, m01, c01, c02, c03, c04, p01, d01, d02, d03, d04):
        for o in f(suite):
            if o.kind not in ('init', 'setter') and o.id not in seen:
                seen.add(o.id)
                out.append(KeyObl(o))
    return out + rng_obls(suite)


def fresh(f):
    """the obligations of f, and that each of its entry points consumes every key once"""
    def g(suite):
        o = f(suite)
        return o + [KeyObl(x) for x in o if x.kind not in ('init', 'setter')]
    return g


UA, UM, UQ = 'coax.utils._array', 'coax.utils._misc', 'coax.utils._quantile_funcs'


def helpers(*names, module=UA):
    """utilities that the reference definitions call themselves, decided on their own"""
    return [Obl('utils', func=(module, n), **(
        {'opaque_funcs': {n}} if n == 'default_preprocessor' else {})) for n in names]


KINDS = ('is_transition_model', 'is_reward_function', 'is_vfunction', 'is_qfunction',
         'is_stochastic', 'is_policy')


def kinds():
    return helpers(*KINDS, module=UM)


def z01(suite):
    return helpers(
        'argmax', 'argmin', 'clipped_logit', 'double_relu', 'isscalar', 'diff_transform_matrix',
        'diff_transform', 'batch_to_single', 'single_to_batch', 'stack_trees', 'tree_ravel',
        'get_grads_diagnostics', 'merge_dicts', 'chunks_pow2', 'unvectorize',
        'default_preprocessor') + helpers(
        'quantiles_uniform', 'quantiles', 'quantile_cos_embedding', module=UQ)


def z02(suite):
    o = []
    for c, i in (('StepwiseLinearFunction', 'init_stepwise'), ('RollingAverage', 'init_rolling'),
                 ('ExponentialAverage', 'init_exponential'), ('OrnsteinUhlenbeckNoise', 'init_noise')):
        o += members(suite, 'utils', c)
        if i:
            o.append(Obl('utils', cls=c, name='__init__', kind='init', ref=i, rejects=True))
    o.append(GuardObl('utils', cls='StepwiseLinearFunction', name='__init__', kind='init',
                      ref='init_stepwise'))
    return o


def s01(suite):
    o = helpers('dump', 'dumps', 'load', 'loads', 'has_env_attr', 'get_env_attr', module=UM)
    o += kinds() + members(suite, 'utils', 'JittedFunc') + members(suite, 'utils', 'CopyMixin')
    o.append(Obl('utils', cls='JittedFunc', name='__init__', kind='init', ref='init_jitted',
                 rejects=True))
    o.append(Obl('utils', cls='JittedFunc', name='__setstate__', ref='setstate_jitted'))
    return o


class AdvanceObl(Obl):
    """self.rng hands out a key that is neither the old nor the new state"""

    def verdict(self, suite, e1, s1, e2, s2, ref, where, cls):
        kept = next((v for k, v in s1.heap.items() if k[1] == '_random_key'), None)
        new, facts = s1.ret, {'observables': 2, 'terms': 2}
        if new.op == 'opaque' or e1.unsupported:
            return Result(self.id, where, 'undetermined', '', facts)
        if kept is not None and new.op == kept.op == 'key' and new is not kept:
            return Result(self.id, where, 'ok', '', facts)
        if kept is None or kept is new or new.op == 'attr':
            return Result(self.id, where, 'violation', f'hands out {show(new)[:200]}, keeps '
                          f'{show(kept)[:200] if kept is not None else "the old key"}', facts,
                          rule='every access to rng splits the key and keeps the other half')
        return Result(self.id, where, 'undetermined', '', facts)


def rng_obls(suite):
    return [AdvanceObl('utils', cls='RandomStateMixin', name='rng', kind='prop', erase=False),
            Obl('utils', cls='RandomStateMixin', name='random_seed', kind='setter',
                ref='seed_setter', erase=False)]


def g01(suite):
    o = members(suite, 'envs', 'ConnectFourEnv') + members(
        suite, 'envs', 'DmcGymWrapper', opaque_funcs={'spec_to_box'})
    o.append(Obl('envs', cls='DmcGymWrapper', name='__init__', kind='init', ref='init_dmc',
                 rejects=True, opaque_funcs={'spec_to_box'}))
    o.append(Obl('envs', cls='ConnectFourEnv', name='__init__', kind='init',
                 ref='init_connect_four'))
    return o + [Obl('envs', func=('coax.utils._dmc_gym', n), opaque_funcs=(
        {'extract_min_max'} if n == 'spec_to_box' else ())) for n in (
        'flatten_obs', 'extract_min_max', 'spec_to_box')]


# which helpers the guarantees of a property rest on
RELIES = {
    'D01': ('argmax',), 'D02': ('isscalar',), 'D03': ('clipped_logit',),
    'C02': ('batch_to_single', 'default_preprocessor'), 'C03': ('batch_to_single',),
    'C04': ('batch_to_single',), 'P01': ('batch_to_single', 'argmax'),
    'U01': ('single_to_batch', 'stack_trees'), 'U02': ('get_grads_diagnostics', 'tree_ravel'),
    'O01': ('get_grads_diagnostics',), 'M01': ('get_grads_diagnostics',),
    'X02': ('default_preprocessor',), 'T03': ('batch_to_single',),
}


def relying(id, f):
    def g(suite):
        o = f(suite) + helpers(*RELIES.get(id, ()))
        return o + kinds() if id in ('E01', 'U01', 'U02', 'C04') else o
    return g


PROPERTIES = {
    'T01': t01, 'T02': t02, 'T03': t03, 'R01': r01, 'R02': r02, 'R03': r03,
    'U01': u01, 'U02': u02, 'U03': u03, 'O01': o01, 'O02': o02, 'M01': fresh(m01),
    'V01': v01, 'V02': v02,
    'D01': d01, 'D02': d02, 'D03': d03, 'D04': fresh(d04),
    'C01': c01, 'C02': c02, 'C03': fresh(c03), 'C04': c04, 'P01': p01, 'W01': w01, 'W02': w02,
    'K01': k01, 'E01': e01,
    'X01': x01, 'X02': x02, 'Z01': z01, 'Z02': z02, 'S01': s01,
    'G01': g01,
}
PROPERTIES = {k: relying(k, f) for k, f in PROPERTIES.items()}
