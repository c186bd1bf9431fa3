"""Texts of the properties (source of properties.jsonl and MANIFEST.json)."""

NOTE = '''Decides equality of the observable effects (return value, written attributes, mutated
containers, exceptions other than argument validation) with a reference definition for every input
at once, modulo the semantics of third-party callables, real arithmetic, and the aliasing and
termination assumptions listed in DESIGN.md. Constructs outside the analysed subset make an
obligation "undetermined" (reported in the evidence, never an alarm).'''

NA = {
    'N01': '''Convergence of training is a statement about limits of stochastic processes driven by
    learned function approximators; no sound static argument in reach bounds it.''',
    'N02': '''Statistical quality of sampling (that empirical frequencies follow the probabilities)
    depends on the pseudo random generators of jax/numpy at run time; statically only the
    dataflow into the sampler is decidable (claimed elsewhere).''',
    'N03': '''Floating point accuracy and absence of overflow depend on run-time magnitudes; the
    analysis works over the reals.''',
    'N04': '''Scheduling between ray actors, liveness of distributed training and delivery of
    remote calls are decided by ray at run time, not by source in this repository.''',
}

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=(over, text), why=why,
                      files=files, mech=mech, **kw))


prop('T01', 'N-step tracing emits exact n-step transitions exactly once per step',
     '''For every n, discount and history of added steps, each added step yields exactly one
     transition, in order, whose return is the sum of gamma^t times the rewards of the next up to n
     steps of the same episode, and nothing is lost, duplicated or carried over an episode
     boundary.  The bootstrap factor is gamma^n with the state, action and log-propensity of the step n
     later while the episode runs on, and exactly zero for the final n steps of an episode.
     A transition is only available when n later steps are known or the episode has ended; reset
     empties the cache.''',
     ['histories', 'inputs', 'configurations'],
     'all n >= 1, gamma in [0,1], all sequences of add / pop / flush / reset calls',
     '''Tests replay one fixed episode for a few n; the guarantee is over all histories and
     episode lengths shorter, equal and longer than n.''',
     ['coax/reward_tracing/_nstep.py', 'coax/reward_tracing/_base.py'],
     [('NStep.add / pop / __bool__ / reset', 'coax/reward_tracing/_nstep.py'),
      ('BaseRewardTracer.flush', 'coax/reward_tracing/_base.py')])

prop('T02', 'Monte Carlo tracing emits exact discounted returns with zero bootstrap',
     '''For every discount and every episode, the tracer holds transitions back until the episode
     is done and then yields each step exactly once, last step first, with the full discounted
     return from that step to the end of the episode and a bootstrap factor of zero.  Returns never
     leak from one episode into another, and reset empties the tracer.''',
     ['histories', 'inputs', 'configurations'],
     'all gamma, all sequences of add / pop / flush / reset calls over any number of episodes',
     'Tests run one fixed episode; the recurrence must hold for every history of episodes.',
     ['coax/reward_tracing/_montecarlo.py', 'coax/reward_tracing/_base.py'],
     [('MonteCarlo.add / pop / __bool__ / reset', 'coax/reward_tracing/_montecarlo.py')])

prop('T03', 'Transition batches keep every field and row across all conversions',
     '''Building a batch from a single transition, splitting a batch into single rows, flattening
     and rebuilding it as a pytree, and iterating preserve every field, its value and the row
     order.  A terminal single transition gets bootstrap factor zero and any
     other one the given discount, and missing next-action fields stay missing.''',
     ['inputs'],
     'all batches, any batch size, any subset of optional fields',
     'Tests convert a few hand-made batches; equality must hold for any pytree of observations.',
     ['coax/reward_tracing/_transition.py'],
     [('TransitionBatch', 'coax/reward_tracing/_transition.py')])

prop('R01', 'The uniform replay buffer is a bounded FIFO with faithful sampling',
     '''After any sequence of operations the buffer holds exactly the most recently added
     transitions, never more than its capacity, evicting the oldest first, each labelled with its
     global insertion number.  A sample of size k consists of k distinct stored transitions drawn
     with the buffer's own seeded random stream and concatenated field by field; clearing empties
     it and restarts the numbering.''',
     ['histories', 'inputs', 'configurations'],
     'all capacities, seeds and sequences of add / sample / clear',
     'Tests add a few batches to one buffer; eviction and numbering must hold for all histories.',
     ['coax/experience_replay/_simple.py', 'coax/experience_replay/_base.py'],
     [('SimpleReplayBuffer', 'coax/experience_replay/_simple.py')])

prop('R02', 'Prioritized replay keeps ring storage, priorities and weights consistent',
     '''After any sequence of operations slot (id modulo capacity) holds the latest transition with
     that slot and its priority is (|advantage| + epsilon)^alpha of the latest accepted value;
     updates for transitions that have been overwritten are ignored.  Sampling draws slots in
     proportion to priority and multiplies each transition's own weight with (N * P(i))^-beta
     divided by the largest such weight in the sample; changing alpha re-expresses all stored
     priorities.''',
     ['histories', 'inputs', 'configurations'],
     'all capacities, alpha, beta, epsilon and all sequences of add / update / sample / clear',
     'Tests check a handful of adds and updates with fixed hyperparameters.',
     ['coax/experience_replay/_prioritized.py'],
     [('PrioritizedReplayBuffer', 'coax/experience_replay/_prioritized.py')])

prop('R03', 'Segment trees answer every range query as the plain array would',
     '''For every capacity and every history of point, slice and bulk writes, the tree returns
     the written leaf values and its reduction over any admissible range equals reducing the plain array with sum, minimum
     or maximum.  Inverse-CDF lookup in a sum tree maps a uniform draw to the leaf whose cumulative
     interval contains it, and sampling is inverse-CDF lookup of the tree's own seeded uniform
     draws.''',
     ['histories', 'inputs', 'configurations'],
     'all capacities (not only powers of two), write histories, ranges and uniform draws',
     'Tests compare with numpy on small random arrays.',
     ['coax/utils/_segment_tree.py'],
     [('SegmentTree, SumTree, MinTree, MaxTree', 'coax/utils/_segment_tree.py')])

prop('U01', 'Temporal-difference targets follow their published definitions',
     '''For every value function type, each TD updater computes the target it is named after:
     reward plus discounted bootstrap of the target network's value at the next state (state value,
     next action of the data, expectation under the policy, greedy, double-greedy, soft, or the
     minimum over the ensemble), in the transformed scale and back.  Every parameter the target
     uses is the current one of the target network or policy it belongs to.  Stochastic
     functions get the correspondingly shifted and scaled distribution.''',
     ['inputs', 'configurations'],
     'all transition batches, value function types, action spaces, value transforms, policies',
     'Tests check that an update changes parameters, not what the target is.',
     ['coax/td_learning/_base.py', 'coax/td_learning/_sarsa.py', 'coax/td_learning/_qlearning.py',
      'coax/td_learning/_doubleqlearning.py', 'coax/td_learning/_expectedsarsa.py',
      'coax/td_learning/_simple_td.py', 'coax/td_learning/_softqlearning.py',
      'coax/td_learning/_clippeddoubleqlearning.py',
      'coax/td_learning/_softclippeddoubleqlearning.py'],
     [('target_func / target_params', 'coax/td_learning')])

prop('U02', 'TD losses, gradients, errors and metrics are those of the stated loss',
     '''For every batch and configuration, the gradient is that of the loss between prediction and target weighted by the batch's importance weights clipped to
     [0.1, 10], where the target is constant under differentiation, the loss is
     evaluated in the transformed scale and policy regularisation is subtracted with its current
     hyperparameters.  Reported TD errors are the negative derivative of the loss with respect to
     the prediction per sample, metrics carry the losses, and the returned function state is the
     one of the training forward pass.''',
     ['inputs', 'configurations'],
     'all batches, loss functions, regularizers, distributional and ordinary value functions',
     'Tests only check that parameters change and metrics exist.',
     ['coax/td_learning/_base.py', 'coax/td_learning/_clippeddoubleqlearning.py'],
     [('grads_and_metrics, td_error', 'coax/td_learning/_base.py')])

prop('U03', 'One update applies one optimizer step to exactly the updated function',
     '''Every updater's update computes gradients once, passes them with the current optimizer state and
     the current parameters through its optimizer, adds the resulting updates to the parameters of the function being
     trained, stores the new optimizer state and function state, and returns the metrics.  No
     other function approximator, in particular no target network, is changed by an update.
     Replacing the optimizer takes effect on the next update.''',
     ['inputs', 'histories', 'configurations'],
     'all updaters, optimizers, batches and sequences of updates',
     'Tests run one or two updates with one optimizer.',
     ['coax/td_learning/_base.py', 'coax/policy_objectives/_base.py',
      'coax/model_updaters/_model_updater.py'],
     [('update, apply_grads, optimizer', 'coax/td_learning/_base.py')])

prop('O01', 'Policy objectives compute their published surrogate and its gradient',
     '''For every batch, the vanilla, clipped-PPO, deterministic and soft policy-gradient
     objectives equal their published formulas in the log-propensities, behaviour
     log-propensities, advantages, current clip threshold and importance weights clipped to
     [0.1, 10]; gradients
     ascend the objective and pass only into the policy being trained.  The regularizer,
     if any, is applied with its current hyperparameters.''',
     ['inputs', 'configurations'],
     'all batches, advantages, action spaces, hyperparameters and regularizers',
     'Tests only check that the policy changes after an update.',
     ['coax/policy_objectives/_base.py', 'coax/policy_objectives/_vanilla_pg.py',
      'coax/policy_objectives/_ppo_clip.py', 'coax/policy_objectives/_deterministic_pg.py',
      'coax/policy_objectives/_soft_pg.py'],
     [('objective_func, grads_and_metrics', 'coax/policy_objectives')])

prop('O02', 'Policy regularizers penalise exactly negative entropy and KL divergence',
     '''The entropy regularizer contributes minus beta times the entropy of the policy's
     distribution and the KL regularizer beta times the divergence from the current policy to its
     reference policy, with the current beta and the current prior parameters, and their metrics
     report the same quantities.''',
     ['inputs', 'configurations'],
     'all policies, observations, priors and beta values changed at any time',
     'Tests evaluate a regularizer with one beta.',
     ['coax/regularizers/_base.py', 'coax/regularizers/_entropy.py',
      'coax/regularizers/_kl_div.py'],
     [('EntropyRegularizer, KLDivRegularizer', 'coax/regularizers')])

prop('M01', 'Model updates fit transition and reward models to the observed outcome',
     '''For every batch, the model updater minimises the loss function between the observed outcome
     (the preprocessed next state for a transition model, the transformed reward for a reward
     function) and the model's prediction for the same state and action (for a stochastic model: a
     fresh differentiable sample), weighted by the batch's importance weights clipped to
     [0.1, 10].  The regularizer, if any, is added with its current hyperparameters and the same
     weights.''',
     ['inputs', 'configurations'],
     'all batches, models, loss functions and regularizers',
     'Tests only check that parameters change.',
     ['coax/model_updaters/_model_updater.py'],
     [('ModelUpdater', 'coax/model_updaters/_model_updater.py')])

prop('V01', 'Value losses equal their published formulas with correct weighting',
     '''Mean squared error, Huber, log loss, sign log loss and quantile Huber return the published
     per-element loss; with sample weights the per-sample losses are averaged weighted by them,
     without weights plainly.  The Huber losses switch from quadratic to linear
     at the given delta and the quantile loss weighs over- and underestimation by the quantile
     fractions, over all pairs of targets and predictions.''',
     ['inputs', 'configurations'],
     'all targets, predictions, weights, quantile fractions and deltas',
     'Tests compare a few arrays; the formulas must hold on every element and shape.',
     ['coax/value_losses/_losses.py'], [('mse, huber, logloss, quantile_huber',
                                         'coax/value_losses/_losses.py')])

prop('V02', 'Value transforms are exact inverses with the documented formula',
     '''The log transform maps x to sign(x) * scale * log(1 + |x| / scale) and its inverse maps back
     with the same scale, so transforming and inverting returns the input for every real
     value.  A custom transform stores and unpacks as exactly the two given functions, forward
     first.''',
     ['inputs', 'configurations'], 'all values, scales and transform pairs',
     'Tests evaluate a grid of points for a single scale.',
     ['coax/value_transforms.py'], [('ValueTransform, LogTransform', 'coax/value_transforms.py')])

prop('D01', 'Categorical distributions implement the textbook formulas for all logits',
     '''For all logits, log-probabilities, entropy, cross-entropy and KL divergence are those of the
     softmax of the logits; samples are Gumbel-softmax vectors drawn with the given key at the distribution's temperature, the
     mean is the softmax, the mode is the softmax sharpened by the same temperature, and
     pre/postprocessing turn category indices into one-hot rows and rows back into the index of a
     largest entry (for the given row or the whole batch).''',
     ['inputs', 'configurations'], 'all logits, keys, category counts, batch sizes',
     'Tests compare a few logits with scipy.',
     ['coax/proba_dists/_categorical.py'],
     [('CategoricalDist', 'coax/proba_dists/_categorical.py')])

prop('D02', 'Binned and quantile value distributions keep their support and mass',
     '''The discretized interval has equally many bins as configured, with atoms at the bin centres
     of [low, high], and its categorical quantities are those of its logits.  Its affine transform
     moves every atom's mass to scale * atom + shift clipped to the outermost atoms, split linearly over the
     two neighbouring atoms, so that the total mass is kept (in the transformed scale if a value
     transform is given).  The quantile distribution's mean is the average of its quantile values and its
     affine transform scales and shifts each of them, keeping the fractions.''',
     ['inputs', 'configurations'],
     'all logits, quantile values, bin counts, ranges, scales, shifts and value transforms',
     'Tests project one distribution with one scale and shift.',
     ['coax/proba_dists/_discretized_interval.py', 'coax/proba_dists/_empirical_quantile.py'],
     [('affine_transform', 'coax/proba_dists/_discretized_interval.py'),
      ('EmpiricalQuantileDist', 'coax/proba_dists/_empirical_quantile.py')])

prop('D03', 'Gaussian distributions implement the textbook formulas in all dimensions',
     '''For the diagonal normal distribution, log-density, entropy, cross-entropy and KL divergence
     are those of the given mean and log-variance; sampling is mean plus standard deviation times
     standard normal noise from the given key; mean and mode are the mean; an affine transform
     scales and shifts mean and adjusts the log-variance.  Variates are clipped as configured and mapped
     to the space's shape and back.  The squashed variant maps samples, mean and mode through
     tanh squashing onto [low, high], with the matching change-of-variables density.''',
     ['inputs', 'configurations'], 'all means, log-variances, variates, keys and Box spaces',
     'Tests compare a few parameters with closed forms.',
     ['coax/proba_dists/_normal.py', 'coax/proba_dists/_squashed_normal.py'],
     [('NormalDist', 'coax/proba_dists/_normal.py'),
      ('SquashedNormalDist', 'coax/proba_dists/_squashed_normal.py')])

prop('D04', 'Composite distributions combine independent parts for every space',
     '''For every (nested) space, the composite distribution uses the matching elementary
     distribution per leaf, with one independent part per component of Tuple, Dict, MultiDiscrete
     and MultiBinary.  Sampling, mean, mode, affine transform and pre/postprocessing act on each
     component with its own parameters, and log-probability, entropy, cross-entropy and KL
     divergence are the sums over all components.''',
     ['inputs', 'configurations'],
     'all spaces (Discrete, Box, MultiDiscrete, MultiBinary, Tuple, Dict, nested), parameters, keys',
     'Tests instantiate a few spaces; nesting and arity are unbounded.',
     ['coax/proba_dists/_composite.py'],
     [('ProbaDist', 'coax/proba_dists/_composite.py')])

prop('C01', 'Parameters, state, copies and soft updates of function approximators',
     '''For every function approximator, assigned parameters and function state are returned
     unchanged (another tree structure is refused), a copy has the same parameters and state and a deep copy shares no mutable state
     with the original, and the random stream follows from the seed.  A soft update replaces every
     parameter leaf and every state leaf by (1 - tau) * own + tau * other and changes nothing
     else, in particular not the other function.''',
     ['inputs', 'histories', 'configurations'],
     'all nine function types, parameter trees, tau in [0, 1], and seeds',
     'Tests soft-update one or two small functions.',
     ['coax/_core/base_func.py'], [('BaseFunc.soft_update, copy, params', 'coax/_core/base_func.py')])

prop('C02', 'Type-1 and type-2 forms of Q functions and models agree',
     '''For every observation and action, a state-action value function or model gives the same
     output whether it is written per action (type 1) or for all actions at once (type 2):
     each form is derived from the other by evaluating every action of the discrete space in
     order, or selecting the given one.  Calling it preprocesses inputs, uses the current
     parameters in inference mode, undoes the value transform (or postprocesses the observation)
     and returns the single result, for V, Q, reward functions and transition models.''',
     ['inputs', 'configurations'],
     'all observations, actions, function types, preprocessors, postprocessors, value transforms',
     'Tests compare one random function per type.',
     ['coax/_core/q.py', 'coax/_core/v.py', 'coax/_core/reward_function.py',
      'coax/_core/transition_model.py'],
     [('function_type1 / function_type2 / __call__', 'coax/_core/q.py')])

prop('C03', 'Stochastic functions and policies return samples of their own distribution',
     '''Calling a policy or a distributional V, Q, reward function or transition model returns a
     sample of the distribution with its current parameters at that input (and, on request, the
     log-probability of exactly that sample); mean and mode return that
     distribution's mean and mode and dist_params its parameters.  Values are returned in the original scale
     when a value transform is set, and omitting the action yields one result per action,
     in order, consistent with giving it.''',
     ['inputs', 'configurations'],
     'all observations, actions, keys, distributions, preprocessors and value transforms',
     'Tests check shapes and containment in the space.',
     ['coax/_core/base_stochastic_func_type1.py', 'coax/_core/base_stochastic_func_type2.py',
      'coax/_core/policy.py', 'coax/_core/stochastic_q.py', 'coax/_core/stochastic_v.py',
      'coax/_core/stochastic_reward_function.py', 'coax/_core/stochastic_transition_model.py'],
     [('sample_func, mean_func, mode_func', 'coax/_core/base_stochastic_func_type2.py')])

prop('C04', 'The one-step lookahead Q equals reward plus discounted successor value',
     '''For every state and action, SuccessorStateQ equals r(s,a) + gamma * v(s') with s' predicted
     by the transition model and each part in its original scale, re-expressed in the scale of its own value
     transform; it always reads the current parameters and state of its three parts, evaluates
     stochastic parts at the mean of their distribution, and gives the same value per action or for all actions.''',
     ['inputs', 'configurations'],
     'all states, actions, deterministic and stochastic v, p and r, gammas, value transforms',
     'Tests check one combination.',
     ['coax/_core/successor_state_q.py'],
     [('function_type1 / function_type2', 'coax/_core/successor_state_q.py')])

prop('P01', 'Value-based and random policies have exactly the documented distribution',
     '''The epsilon-greedy policy gives every action probability epsilon / n, sharing the remaining
     1 - epsilon among the greedy actions of its current q; the Boltzmann policy uses the softmax of
     q / temperature.  Both use current hyperparameters, q parameters and state, and the mean value for a
     stochastic q; assigning their parameters changes the hyperparameter and q's parameters.  The random policy
     draws from the action space, seeded as given, and reports the log-propensity of a uniform draw.''',
     ['inputs', 'histories', 'configurations'],
     'all q functions, states, epsilons, temperatures and seeds, changed at any time',
     'Tests sample a few actions.',
     ['coax/_core/value_based_policy.py', 'coax/_core/random_policy.py'],
     [('EpsilonGreedy, BoltzmannPolicy', 'coax/_core/value_based_policy.py')])

prop('X01', 'No PRNG key is consumed twice within one computation',
     '''On every path through sampling, updating, differentiating and evaluating, each jax PRNG key
     is consumed at most once: it is split or passed to one consumer, so no two
     random draws or network passes of a computation share the same randomness.''',
     ['inputs', 'configurations'],
     'all paths through every entry point of updaters, objectives, distributions, functions, policies',
     'Reused keys give plausible values that no assertion on shapes or ranges can see.',
     ['coax/_core', 'coax/proba_dists', 'coax/td_learning', 'coax/policy_objectives',
      'coax/model_updaters', 'coax/regularizers'],
     [('jax.random.split / next(rngs)', 'coax/_core/base_func.py')],
     technique='static typestate over abstract PRNG keys: linear use per path of the value graph')

prop('X02', 'Constructor options of function approximators take effect as documented',
     '''For every function approximator, each constructor option (preprocessors, postprocessors, value transform, distribution, value range,
     number of bins, random seed) is stored or applied as given, and an omitted option
     falls back to the documented default derived from the environment's spaces.''',
     ['configurations'], 'all nine constructors and all combinations of options',
     'Tests construct each class with one or two option sets.',
     ['coax/_core/base_func.py', 'coax/_core/q.py', 'coax/_core/v.py', 'coax/_core/policy.py',
      'coax/_core/transition_model.py', 'coax/_core/stochastic_q.py', 'coax/_core/stochastic_v.py',
      'coax/_core/reward_function.py', 'coax/_core/stochastic_reward_function.py',
      'coax/_core/stochastic_transition_model.py'],
     [('__init__', 'coax/_core')])

prop('W01', 'The training monitor counts, averages and logs every step exactly once',
     '''After any sequence of resets and steps the monitor's counters T, ep, t, G and the smoothed
     average return equal those of the history; the wrapped environment sees each call once with
     the same arguments and its results are passed on.  Metrics are averaged per
     episode, periods fire once per elapsed period, episode logs are written once per
     finished episode at the right global step, and saved counters restore the same state.  The
     streamed action sample stays bounded and uniform over everything appended.''',
     ['histories', 'inputs', 'configurations'],
     'all sequences of reset / step / record_metrics / period / get / set / save / load',
     'Tests run one short episode.',
     ['coax/wrappers/_train_monitor.py'],
     [('TrainMonitor, StreamingSample', 'coax/wrappers/_train_monitor.py')])

prop('W02', 'Environment wrappers translate actions and observations faithfully',
     '''Frame stacking returns exactly the last n observations, oldest first, starting with n copies
     of the reset observation.  The meta-policy environment applies the chosen arm to the current
     state and reports its action and log-propensity.  Box actions from reals or bins are mapped
     onto [low, high] of the wrapped space, in its shape, and recorded as original action.  Rewards, termination
     flags, infos and reset arguments are passed through unchanged.''',
     ['histories', 'inputs', 'configurations'],
     'all environments, numbers of frames, arms, bin counts, actions and histories',
     'Tests take one step in one environment.',
     ['coax/wrappers/_frame_stacking.py', 'coax/wrappers/_meta_policy.py',
      'coax/wrappers/_box_spaces.py'],
     [('step / reset', 'coax/wrappers')])

prop('K01', 'Workers route data, state and metrics to the parameter store in order',
     '''A rollout traces every transition of the episode once, in order, with the action,
     log-propensity and end flag that produced it.  Buffer, state, metric and attribute
     operations act locally if there is no parameter store, directly on a local store and
     through awaited remote calls on a remote one, with the same arguments and result.  The rollout and learn
     loops pull state before acting or learning, push results after, count global steps, and
     stop at the step limit (or reward threshold); sampling waits until enough data is stored.''',
     ['histories', 'inputs', 'configurations'],
     'all environments, stores (none, local, remote), step limits, thresholds and batch sizes',
     'The existing tests never run a worker.',
     ['coax/_core/worker.py'], [('Worker', 'coax/_core/worker.py')])

prop('E01', 'Ill-formed functions, parameters and updater arguments are refused',
     '''Constructing a function approximator raises if the function's signature does not fit, a
     space is not a Space, or its output on example data differs from the expected array type,
     floating dtype, shape or tree structure.  Assigning params or a function state of another
     tree structure raises.  Constructors of updaters and policy objectives raise if a
     function, target, policy or regularizer is not of the required kind; single transitions with invalid
     log-propensity, reward, done flag, discount or weight are refused.  Well-formed arguments are
     accepted.''',
     ['inputs', 'configurations'], 'all functions, environments, parameter trees and arguments',
     'Tests try a handful of bad arguments for some of the classes.',
     ['coax/_core/base_func.py', 'coax/_core/base_stochastic_func_type1.py',
      'coax/_core/base_stochastic_func_type2.py', 'coax/_core/q.py', 'coax/_core/v.py',
      'coax/_core/transition_model.py', 'coax/_core/stochastic_v.py', 'coax/td_learning/_base.py',
      'coax/policy_objectives/_base.py', 'coax/model_updaters/_model_updater.py',
      'coax/reward_tracing/_transition.py'],
     [('_check_signature, _check_output, params.setter', 'coax/_core/base_func.py')],
     technique='static guard analysis: the path conditions under which an entry point raises, '
               'compared with the refusals of a reference')


prop('Z01', 'Array and tree helpers compute their documented result on every input',
     '''Arg-max and arg-min break ties uniformly among exactly the extremal entries; splitting a
     tree into rows, adding a batch axis, stacking, flattening and unvectorizing are mutually
     consistent on every leaf; power-of-two chunks partition a batch in order without loss.
     Merging dicts keeps the last value, and gradient diagnostics report the largest magnitude
     and the norm.  The default preprocessor one-hot encodes discrete spaces, clips boxes
     to their bounds, and maps every component of a composite space with a key of its own.
     Fixed quantile fractions are an even grid, random ones normalised cumulative sums, and
     diff-transforms, cosine embeddings, clipped logits and scalar tests follow their formulas.''',
     ['inputs'], 'all arrays, pytrees, spaces, axes and options',
     'Tests evaluate the helpers on a few fixed arrays.',
     ['coax/utils/_array.py', 'coax/utils/_quantile_funcs.py'],
     [('argmax, batch_to_single, default_preprocessor, chunks_pow2',
       'coax/utils/_array.py'),
      ('quantiles, quantiles_uniform', 'coax/utils/_quantile_funcs.py')])

prop('Z02', 'Schedules, averages and action noise follow their recurrences',
     '''A stepwise linear schedule interpolates linearly between its (time, value) breakpoints, is
     constant before the first and after the last, and refuses breakpoints that are not pairs or
     whose times do not increase.  The rolling average is the mean of at most
     the last n observations, the exponential average moves by 1/k of the difference, where k is
     the number of observations so far but at most n.  Ornstein-Uhlenbeck noise adds a mean-reverting state to the action
     that every call advances by one step and clips to the given bounds, and that restarts at the
     mean after reset.''',
     ['inputs', 'histories', 'configurations'],
     'all breakpoints, times, window sizes, noise parameters and sequences of updates',
     'Tests look at a handful of points and one short sequence.',
     ['coax/utils/_misc.py', 'coax/utils/_rolling.py', 'coax/utils/_action_noise.py'],
     [('StepwiseLinearFunction', 'coax/utils/_misc.py'),
      ('RollingAverage, ExponentialAverage', 'coax/utils/_rolling.py'),
      ('OrnsteinUhlenbeckNoise', 'coax/utils/_action_noise.py')])

prop('S01', 'Saving, copying and jitting keep an object as it was',
     '''Dumping an object to a file or string and loading it again inverts exactly the same
     compression and serialization, and creates missing folders; a jitted function survives the
     round trip with the same function, static and donated arguments, and calls the wrapped
     function with the arguments given.  A deep copy shares nothing with the original and a shallow copy
     its components.  Type predicates and attribute lookups through
     wrapped environments answer for the object itself.''',
     ['inputs', 'histories'], 'all objects, paths, jit options and wrapper stacks',
     'Tests round-trip a few example objects.',
     ['coax/utils/_misc.py', 'coax/utils/_jit.py', 'coax/_base/mixins/_copy.py'],
     [('dump, load, dumps, loads, is_*', 'coax/utils/_misc.py'), ('JittedFunc', 'coax/utils/_jit.py'),
      ('CopyMixin.copy', 'coax/_base/mixins/_copy.py')])

prop('G01', 'The bundled environments obey their rules in every position',
     '''Connect four drops the token of the player whose turn it is on the lowest free row of the chosen
     column, alternates the players, refuses moves after the end, outside the board or in full
     columns, and ends with reward 1 exactly if four tokens of the mover are in a row, column or
     diagonal, or with reward 0 if the board is full.  The observation shows own and
     other tokens relative to the last mover and a mask of the free columns; a state id
     identifies the position and restoring it restores the same position.  Control-suite environments pass
     actions, rewards and ends on, flatten observations in order, and derive bounded spaces from the
     specs.''',
     ['inputs', 'histories'], 'all positions, move sequences, state ids and control tasks',
     'There are no tests of the environments; positions are far too many to sample.',
     ['coax/envs/_connect_four.py', 'coax/utils/_dmc_gym.py'],
     [('ConnectFourEnv.step, state, state_id, set_state', 'coax/envs/_connect_four.py'),
      ('DmcGymWrapper', 'coax/utils/_dmc_gym.py')])


W = 'No test can enumerate them; it is a statement about limits or about the runtime environment.'
prop('N01', 'Training converges to optimal values and policies',
     'With suitable step sizes the algorithms converge to the values and policies they target.',
     ['histories'], 'all environments and learning histories', W,
     ['coax/td_learning', 'coax/policy_objectives'], [('updaters', 'coax/td_learning')])
prop('N02', 'Empirical sampling frequencies follow the stated probabilities',
     'Long-run frequencies of sampled actions and transitions match their probabilities.',
     ['inputs', 'histories'], 'all seeds and sample sizes', W,
     ['coax/proba_dists', 'coax/experience_replay'], [('sample', 'coax/proba_dists')])
prop('N03', 'Results are numerically accurate and finite for all magnitudes',
     'Losses, probabilities and returns stay finite and accurate for all admissible magnitudes.',
     ['inputs'], 'all floating point inputs', W, ['coax/proba_dists', 'coax/utils'],
     [('clipping', 'coax/utils/_array.py')])
prop('N04', 'Distributed workers make progress and lose no experience',
     'Every remote call between actors, learners and parameter servers is eventually delivered.',
     ['schedules', 'fault_sequences'], 'all interleavings and failures of remote actors', W,
     ['coax/_core/worker.py'], [('Worker', 'coax/_core/worker.py')])
