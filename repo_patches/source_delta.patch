From bc5cadce195d128472ecd274be77e7697b3c1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:20 +0000
Subject: [PATCH 01/20] fix: StochasticRewardFunction forwards its constructor
 options

---
 coax/_core/stochastic_reward_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/_core/stochastic_reward_function.py b/coax/_core/stochastic_reward_function.py
index 32fb972..6631687 100644
--- a/coax/_core/stochastic_reward_function.py
+++ b/coax/_core/stochastic_reward_function.py
@@ -70,6 +70,7 @@ class StochasticRewardFunction(StochasticQ):
             action_preprocessor=None, value_transform=None, random_seed=None):
 
         super().__init__(
-            func, env, value_range=(value_range or env.reward_range), num_bins=51,
-            observation_preprocessor=None, action_preprocessor=None, value_transform=None,
-            random_seed=None)
+            func, env, value_range=(value_range or env.reward_range), num_bins=num_bins,
+            observation_preprocessor=observation_preprocessor,
+            action_preprocessor=action_preprocessor, value_transform=value_transform,
+            random_seed=random_seed)
-- 
2.43.0


From b30ccc941deff8d39c0465f28daffc7d14865a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:20 +0000
Subject: [PATCH 02/20] fix: Q and TransitionModel build their example data
 with the given observation_preprocessor

---
 coax/_core/q.py                | 1 +
 coax/_core/transition_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coax/_core/q.py b/coax/_core/q.py
index 5b21cee..8cca881 100644
--- a/coax/_core/q.py
+++ b/coax/_core/q.py
@@ -269,6 +269,7 @@ class Q(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
diff --git a/coax/_core/transition_model.py b/coax/_core/transition_model.py
index d3784d9..064fda2 100644
--- a/coax/_core/transition_model.py
+++ b/coax/_core/transition_model.py
@@ -284,6 +284,7 @@ class TransitionModel(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
-- 
2.43.0


From a66fd0986bf2dac0d34dc43ccb2d76176b5f7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:20 +0000
Subject: [PATCH 03/20] fix: RandomPolicy log-propensity for Discrete actions

---
 coax/_core/random_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index 28e019f..ebbe197 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -42,7 +42,7 @@ class RandomPolicy:
             return a
 
         if isinstance(self.action_space, gymnasium.spaces.Discrete):
-            logp = -onp.log(self.num_actions)
+            logp = -onp.log(self.action_space.n)
             return a, logp
 
         if isinstance(self.action_space, gymnasium.spaces.Box):
-- 
2.43.0


From cf0b407692dbd4fbc37282a99f35a508dbce10dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:20 +0000
Subject: [PATCH 04/20] fix: PolicyObjective.optimizer setter refers to the
 policy

---
 coax/policy_objectives/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index ff31a6b..02ba750 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -107,7 +107,7 @@ class PolicyObjective:
     @optimizer.setter
     def optimizer(self, new_optimizer):
         new_optimizer_state_structure = jax.tree_util.tree_structure(
-            new_optimizer.init(self._f.params))
+            new_optimizer.init(self._pi.params))
         if new_optimizer_state_structure != jax.tree_util.tree_structure(self.optimizer_state):
             raise AttributeError("cannot set optimizer attr: mismatch in optimizer_state structure")
         self._optimizer = new_optimizer
-- 
2.43.0


From 99e0d62498a3cabec7a69fe2c5cb194a84279c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:20 +0000
Subject: [PATCH 05/20] fix: Regularizer.batch_eval accepts type-1 stochastic
 functions

---
 coax/regularizers/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/regularizers/_base.py b/coax/regularizers/_base.py
index 28cf0d9..e5f7955 100644
--- a/coax/regularizers/_base.py
+++ b/coax/regularizers/_base.py
@@ -75,7 +75,7 @@ class Regularizer:
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     A = self.f.action_preprocessor(next(rngs), transition_batch.A)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, A, False)
-                if isinstance(self.f, BaseStochasticFuncType2):
+                elif isinstance(self.f, BaseStochasticFuncType2):
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, False)
                 else:
-- 
2.43.0


From a8f26593e2484157958d9c151c88a4f4e0b2c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:06 +0000
Subject: [PATCH 06/20] fix: apply importance weights in the distributional
 (cross-entropy) TD loss

---
 coax/td_learning/_base.py                   | 8 ++++----
 coax/td_learning/_clippeddoubleqlearning.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/coax/td_learning/_base.py b/coax/td_learning/_base.py
index 66d3650..5e90c43 100644
--- a/coax/td_learning/_base.py
+++ b/coax/td_learning/_base.py
@@ -261,8 +261,8 @@ class BaseTDLearningV(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.v.value_transform)
 
                 if isinstance(self.v.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.v.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.v.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.v.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
@@ -418,8 +418,8 @@ class BaseTDLearningQ(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
diff --git a/coax/td_learning/_clippeddoubleqlearning.py b/coax/td_learning/_clippeddoubleqlearning.py
index bd2a48b..8a269d5 100644
--- a/coax/td_learning/_clippeddoubleqlearning.py
+++ b/coax/td_learning/_clippeddoubleqlearning.py
@@ -145,8 +145,8 @@ class ClippedDoubleQLearning(BaseTDLearningQ):  # TODO(krholshe): make this less
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
-- 
2.43.0


From 97fa039cc517e7e360f3f9607b9a62c6972ccb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:06 +0000
Subject: [PATCH 07/20] fix: do not consume the same PRNG key more than once in
 loss functions

---
 coax/policy_objectives/_base.py             | 5 +++--
 coax/policy_objectives/_deterministic_pg.py | 2 +-
 coax/policy_objectives/_soft_pg.py          | 2 +-
 coax/td_learning/_base.py                   | 4 ++--
 coax/td_learning/_clippeddoubleqlearning.py | 2 +-
 5 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index 02ba750..d0f9456 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -43,8 +43,9 @@ class PolicyObjective:
         self._optimizer_state = self.optimizer.init(self._pi.params)
 
         def loss_func(params, state, hyperparams, rng, transition_batch, Adv):
+            rngs = hk.PRNGSequence(rng)
             objective, (dist_params, log_pi, state_new) = \
-                self.objective_func(params, state, hyperparams, rng, transition_batch, Adv)
+                self.objective_func(params, state, hyperparams, next(rngs), transition_batch, Adv)
 
             # flip sign to turn objective into loss
             loss = -objective
@@ -64,7 +65,7 @@ class PolicyObjective:
                 regularizer, regularizer_metrics = self.regularizer.batch_eval(params,
                                                                                hparams,
                                                                                state,
-                                                                               rng,
+                                                                               next(rngs),
                                                                                transition_batch)
                 loss = loss + jnp.mean(W * regularizer)
                 metrics[f'{self.__class__.__name__}/loss'] = loss
diff --git a/coax/policy_objectives/_deterministic_pg.py b/coax/policy_objectives/_deterministic_pg.py
index a990cb1..21ba4ec 100644
--- a/coax/policy_objectives/_deterministic_pg.py
+++ b/coax/policy_objectives/_deterministic_pg.py
@@ -97,7 +97,7 @@ class DeterministicPG(PolicyObjective):
         log_pi = self.pi.proba_dist.log_proba(dist_params, A)
         params_q, state_q = hyperparams['q']['params'], hyperparams['q']['function_state']
         if is_stochastic(self.q_targ):
-            dist_params_q, _ = self.q_targ.function_type1(params_q, state_q, rng, S, A, True)
+            dist_params_q, _ = self.q_targ.function_type1(params_q, state_q, next(rngs), S, A, True)
             Q = self.q_targ.proba_dist.mean(dist_params_q)
             Q = self.q_targ.proba_dist.postprocess_variate(next(rngs), Q, batch_mode=True)
         else:
diff --git a/coax/policy_objectives/_soft_pg.py b/coax/policy_objectives/_soft_pg.py
index 0314eaa..eec6ddf 100644
--- a/coax/policy_objectives/_soft_pg.py
+++ b/coax/policy_objectives/_soft_pg.py
@@ -38,7 +38,7 @@ class SoftPG(PolicyObjective):
             # compute objective: q(s, a)
             S = q_targ.observation_preprocessor(next(rngs), transition_batch.S)
             if is_stochastic(q_targ):
-                dist_params_q, _ = q_targ.function_type1(params_q, state_q, rng, S, A, True)
+                dist_params_q, _ = q_targ.function_type1(params_q, state_q, next(rngs), S, A, True)
                 Q = q_targ.proba_dist.mean(dist_params_q)
                 Q = q_targ.proba_dist.postprocess_variate(next(rngs), Q, batch_mode=True)
             else:
diff --git a/coax/td_learning/_base.py b/coax/td_learning/_base.py
index 5e90c43..9254ca5 100644
--- a/coax/td_learning/_base.py
+++ b/coax/td_learning/_base.py
@@ -254,7 +254,7 @@ class BaseTDLearningV(BaseTDLearning):
             if is_stochastic(self.v):
                 dist_params, state_new = self.v.function(params, state, next(rngs), S, True)
                 dist_params_target = \
-                    self.target_func(target_params, target_state, rng, transition_batch)
+                    self.target_func(target_params, target_state, next(rngs), transition_batch)
 
                 if self.policy_regularizer is not None:
                     dist_params_target = self.v.proba_dist.affine_transform(
@@ -411,7 +411,7 @@ class BaseTDLearningQ(BaseTDLearning):
                 dist_params, state_new = \
                     self.q.function_type1(params, state, next(rngs), S, A, True)
                 dist_params_target = \
-                    self.target_func(target_params, target_state, rng, transition_batch)
+                    self.target_func(target_params, target_state, next(rngs), transition_batch)
 
                 if self.policy_regularizer is not None:
                     dist_params_target = self.q.proba_dist.affine_transform(
diff --git a/coax/td_learning/_clippeddoubleqlearning.py b/coax/td_learning/_clippeddoubleqlearning.py
index 8a269d5..4b8ff5c 100644
--- a/coax/td_learning/_clippeddoubleqlearning.py
+++ b/coax/td_learning/_clippeddoubleqlearning.py
@@ -138,7 +138,7 @@ class ClippedDoubleQLearning(BaseTDLearningQ):  # TODO(krholshe): make this less
                 dist_params, state_new = \
                     self.q.function_type1(params, state, next(rngs), S, A, True)
                 dist_params_target = \
-                    self.target_func(target_params, target_state, rng, transition_batch)
+                    self.target_func(target_params, target_state, next(rngs), transition_batch)
 
                 if self.policy_regularizer is not None:
                     dist_params_target = self.q.proba_dist.affine_transform(
-- 
2.43.0


From 93aa49faf7163cb8b64fd84dac706be9511a8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:06 +0000
Subject: [PATCH 08/20] fix: NormalDist.affine_transform scales the mean

---
 coax/proba_dists/_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 8ae101f..174c987 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -165,7 +165,7 @@ class NormalDist(BaseProbaDist):
             mu = check_shape(dist_params['mu'], name='mu', flatten=False)
             logvar = check_shape(dist_params['logvar'], name='logvar', flatten=False)
             var_new = f(f_inv(jnp.exp(logvar)) * jnp.square(scale))
-            return {'mu': f(f_inv(mu) + shift), 'logvar': jnp.log(var_new)}
+            return {'mu': f(f_inv(mu) * scale + shift), 'logvar': jnp.log(var_new)}
 
         self._sample_func = jit(sample)
         self._mean_func = jit(mean)
-- 
2.43.0


From 1dad8bc30c2b3a9e3862b34d1ee2dd0dfdaec457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:06 +0000
Subject: [PATCH 09/20] fix: MetaPolicyEnv no longer relies on the removed
 inspect.getargspec

---
 coax/wrappers/_meta_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index 02a9cc6..b91fcbf 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -43,7 +43,7 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         assert self._s is not None, "please call env.reset() first"
 
         pi = self.arms[a_meta]
-        if 'return_logp' in inspect.getargspec(pi).args:
+        if 'return_logp' in inspect.signature(pi).parameters:
             a, logp = pi(self._s, return_logp=True)
         else:
             a, logp = pi(self._s), 0.
-- 
2.43.0


From b38198fc3c10159f51a13a8244bfa11c3eb75323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:06 +0000
Subject: [PATCH 10/20] fix: env wrappers pass reset() arguments through

---
 coax/wrappers/_meta_policy.py   | 4 ++--
 coax/wrappers/_train_monitor.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index b91fcbf..20d9f84 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -34,8 +34,8 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         self.action_space = gymnasium.spaces.Discrete(len(arms))
         self._s = None
 
-    def reset(self):
-        self._s, info = self.env.reset()
+    def reset(self, **kwargs):
+        self._s, info = self.env.reset(**kwargs)
         return self._s, info
 
     def step(self, a_meta):
diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 884da73..b5424fc 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -167,7 +167,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         self._ep_actions = StreamingSample(maxlen=1000)
         self._period = {'T': {}, 'ep': {}}
 
-    def reset(self):
+    def reset(self, **kwargs):
         # write logs from previous episode:
         if self.ep:
             self._write_episode_logs()
@@ -183,7 +183,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         self._ep_metrics = {}
         self._ep_actions.reset()
 
-        return self.env.reset()
+        return self.env.reset(**kwargs)
 
     @property
     def dt_ms(self):
-- 
2.43.0


From 8fcf38a0127c6f08742f65d1428aba54a2a186ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:51 +0000
Subject: [PATCH 11/20] fix: TrainMonitor.set_counters drops the writer of the
 previous tensorboard_dir

---
 coax/wrappers/_train_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index b5424fc..886bbf0 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -352,7 +352,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         return state
 
     def __setstate__(self, state):
-        self.__dict__.update(state)
+        self.__dict__.update({k: v for k, v in state.items() if k != '_tensorboard_dir'})
         self._init_tensorboard(state['_tensorboard_dir'])
 
     def get_counters(self):
-- 
2.43.0


From 556963bbcd8c023716ea70ab27fbd0f23c815eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:51 +0000
Subject: [PATCH 12/20] fix: composite ProbaDist.affine_transform accepts value
 transforms

---
 coax/proba_dists/_composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_composite.py b/coax/proba_dists/_composite.py
index 01d01e7..fb57e94 100644
--- a/coax/proba_dists/_composite.py
+++ b/coax/proba_dists/_composite.py
@@ -204,7 +204,7 @@ class ProbaDist(BaseProbaDist):
         self._entropy_func = jit(entropy)
         self._cross_entropy_func = jit(cross_entropy)
         self._kl_divergence_func = jit(kl_divergence)
-        self._affine_transform_func = jit(affine_transform)
+        self._affine_transform_func = affine_transform  # n.b. leaves are jitted
 
     @property
     def hyperparams(self):
-- 
2.43.0


From ab93d826bbc460855876835f54c70fbb44763638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:51 +0000
Subject: [PATCH 13/20] fix: SuccessorStateQ accepts stochastic transition
 models

---
 coax/_core/successor_state_q.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index cadd2ba..c2bfb8c 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -63,7 +63,9 @@ class SuccessorStateQ:
         self.action_space = self.p.action_space
         self.action_preprocessor = self.p.action_preprocessor
         self.observation_preprocessor = self.p.observation_preprocessor
-        self.observation_postprocessor = self.p.observation_postprocessor
+        self.observation_postprocessor = (
+            self.p.proba_dist.postprocess_variate if is_stochastic(self.p)
+            else self.p.observation_postprocessor)
         self.value_transform = self.v.value_transform
 
         if not check_preprocessors(
-- 
2.43.0


From 92848aa764269d723618ca92c1f68b2b26e6c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:51 +0000
Subject: [PATCH 14/20] fix: SuccessorStateQ takes the value transform of the
 reward function into account

---
 coax/_core/successor_state_q.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index c2bfb8c..ba1c7de 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -142,6 +142,7 @@ class SuccessorStateQ:
 
                 # q = r + γ v(s')
                 f, f_inv = self.value_transform
+                R = self.r.value_transform.inverse_func(R)
                 Q_sa = f(R + params['gamma'] * f_inv(V))
                 assert Q_sa.ndim == 1, f"bad shape: {Q_sa.shape}"
 
@@ -199,6 +200,7 @@ class SuccessorStateQ:
 
                 # q = r + γ v(s')
                 f, f_inv = self.value_transform
+                R_rep = self.r.value_transform.inverse_func(R_rep)
                 Q_rep = f(R_rep + params['gamma'] * f_inv(V_rep))
 
                 # reshape from (batch x num_actions, *) to (batch, num_actions, *)
-- 
2.43.0


From 3da720f800e29541d5aebd021bea336b90cbdfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:07 +0000
Subject: [PATCH 15/20] fix: SoftQLearning.temperature can be changed after
 construction

---
 coax/td_learning/_softqlearning.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coax/td_learning/_softqlearning.py b/coax/td_learning/_softqlearning.py
index 777bc25..f57ba44 100644
--- a/coax/td_learning/_softqlearning.py
+++ b/coax/td_learning/_softqlearning.py
@@ -92,6 +92,11 @@ class SoftQLearning(BaseTDLearningQ):
             loss_function=loss_function,
             policy_regularizer=policy_regularizer)
 
+    @property
+    def target_params(self):
+        return hk.data_structures.to_immutable_dict({
+            **super().target_params, 'temperature': self.temperature})
+
     def target_func(self, target_params, target_state, rng, transition_batch):
         rngs = hk.PRNGSequence(rng)
         params, state = target_params['q_targ'], target_state['q_targ']
@@ -99,7 +104,8 @@ class SoftQLearning(BaseTDLearningQ):
         Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
         assert Q_s_next.ndim == 2
         assert Q_s_next.shape[1] == self.q.action_space.n
-        Q_sa_next = self.temperature * logsumexp(Q_s_next / self.temperature, axis=-1)
+        temperature = target_params['temperature']
+        Q_sa_next = temperature * logsumexp(Q_s_next / temperature, axis=-1)
         assert Q_sa_next.ndim == 1
 
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
-- 
2.43.0


From c55702d991a62da642f51e8148e5b7af6495735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:07 +0000
Subject: [PATCH 16/20] fix: SquashedNormalDist works without an explicit
 clip_logvar

---
 coax/proba_dists/_squashed_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 6c66a64..09d032a 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -32,7 +32,7 @@ class SquashedNormalDist(BaseProbaDist):
 
     """
 
-    def __init__(self, space, clip_logvar=None):
+    def __init__(self, space, clip_logvar=(-20., 20.)):
         super().__init__(space)
 
         self._normal_dist = NormalDist(space=space, clip_logvar=clip_logvar)
-- 
2.43.0


From 92263cc188d079987cfaf12082f99fa4de9f6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:07 +0000
Subject: [PATCH 17/20] fix: SquashedNormalDist.log_proba is the density of the
 samples on any Box

---
 coax/proba_dists/_squashed_normal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 09d032a..9c43508 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -53,9 +53,11 @@ class SquashedNormalDist(BaseProbaDist):
         arctanh_eps = 1e-7  # avoid arctanh(1) = acrtanh(-1) = inf
 
         def log_proba(dist_params, X):
+            X = (X - self._offset) / self._scale  # undo the rescaling that is done by sample()
             X = jnp.arctanh(jnp.clip(X, a_min=-1.0 + arctanh_eps, a_max=1.0 - arctanh_eps))
             logp = self._normal_dist.log_proba(dist_params, X)
-            return logp - jnp.sum(2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))), axis=-1)
+            logdetjac = jnp.log(self._scale) + 2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X)))
+            return logp - jnp.sum(logdetjac.reshape(X.shape[0], -1), axis=-1)
 
         self._sample_func = jax.jit(sample)
         self._mean_func = jax.jit(mean)
-- 
2.43.0


From e3c9f47d85030b6ab151b573a70958bccc89b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:34 +0000
Subject: [PATCH 18/20] fix: StochasticQ and StochasticV undo the value
 transform when called

---
 coax/_core/stochastic_q.py | 9 ++++++---
 coax/_core/stochastic_v.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index bf24020..26902c5 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -1,3 +1,4 @@
+import jax
 from gymnasium.spaces import Box
 
 from ..utils import default_preprocessor
@@ -162,7 +163,9 @@ class StochasticQ(BaseStochasticFuncType1):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, a=a, return_logp=return_logp)
+        x, logp = super().__call__(s, a=a, return_logp=True)
+        x = jax.tree_map(self.value_transform.inverse_func, x)
+        return (x, logp) if return_logp else x
 
     def mean(self, s, a=None):
         r"""
@@ -187,7 +190,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mean(s, a=a)
+        return jax.tree_map(self.value_transform.inverse_func, super().mean(s, a=a))
 
     def mode(self, s, a=None):
         r"""
@@ -212,7 +215,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mode(s, a=a)
+        return jax.tree_map(self.value_transform.inverse_func, super().mode(s, a=a))
 
     def dist_params(self, s, a=None):
         r"""
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index 370f4d5..266b837 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -1,3 +1,4 @@
+import jax
 from gymnasium.spaces import Box
 
 from ..utils import default_preprocessor
@@ -137,7 +138,9 @@ class StochasticV(BaseStochasticFuncType2):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, return_logp=return_logp)
+        x, logp = super().__call__(s, return_logp=True)
+        x = jax.tree_map(self.value_transform.inverse_func, x)
+        return (x, logp) if return_logp else x
 
     def mean(self, s):
         r"""
@@ -157,7 +160,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mean(s)
+        return jax.tree_map(self.value_transform.inverse_func, super().mean(s))
 
     def mode(self, s):
         r"""
@@ -177,7 +180,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mode(s)
+        return jax.tree_map(self.value_transform.inverse_func, super().mode(s))
 
     def dist_params(self, s):
         r"""
-- 
2.43.0


From c23ed6c68ea323c9c600e309e75ac96d73d8fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:49 +0000
Subject: [PATCH 19/20] fix: StochasticQ and StochasticV accept a
 value_transform made of jax functions

---
 coax/_core/stochastic_q.py | 2 +-
 coax/_core/stochastic_v.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index 26902c5..a292dd3 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -247,7 +247,7 @@ class StochasticQ(BaseStochasticFuncType1):
         if value_range is not None:
             if value_transform is not None:
                 f, _ = value_transform
-                value_range = f(value_range[0]), f(value_range[1])
+                value_range = float(f(value_range[0])), float(f(value_range[1]))
             reward_space = Box(*value_range, shape=())
             return DiscretizedIntervalDist(reward_space, num_bins)
         else:
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index 266b837..998462f 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -207,7 +207,7 @@ class StochasticV(BaseStochasticFuncType2):
     def _get_proba_dist(value_range, value_transform, num_bins):
         if value_transform is not None:
             f, _ = value_transform
-            value_range = f(value_range[0]), f(value_range[1])
+            value_range = float(f(value_range[0])), float(f(value_range[1]))
         reward_space = Box(*value_range, shape=())
         return DiscretizedIntervalDist(reward_space, num_bins)
 
-- 
2.43.0


From 1741722308fdab0bf58032143c0b71816f13d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:40 +0000
Subject: [PATCH 20/20] fix: ConnectFourEnv.set_state called a function that
 numpy does not have

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 29fb9b1..e2cee96 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -254,7 +254,7 @@ class ConnectFourEnv(Env):
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np._base_repr(int(state_id[3:], 16), 3)
+        s = np.base_repr(int(state_id[3:], 16), 3)
         z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
         z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
-- 
2.43.0

