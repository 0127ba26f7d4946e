From 4c5304ea19c1e0c53d7e711388a66f2978ee4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:52 +0000
Subject: [PATCH 01/42] fix: keep transition and episode views of
 PrioritizedEpisodicReplayBuffer consistent

The flat memory was bounded by its own maxlen while episodes were discarded
whole, so len() and sample() exposed transitions of discarded episodes; the
capacity attribute stayed None, capacity was not enforced after load(), and
sample() returned bare transitions instead of one-transition experiences.
---
 pfrl/replay_buffers/prioritized_episodic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index e31a748..4e7dbc7 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -26,8 +26,8 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
         self.episodic_memory = PrioritizedBuffer(
             capacity=None, wait_priority_after_sampling=wait_priority_after_sampling
         )
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -66,12 +66,12 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
+            for transition in current_episode:
+                self.memory.append([transition])
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From 6a867a46afd118afbe924c2fe7913456200fc2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:24 +0000
Subject: [PATCH 02/42] fix: sample distinct items when mixing uniform and
 prioritized samples

With wait_priority_after_sampling=False the uniformly sampled items kept
their priorities while prioritized samples were drawn, so the same item could
be returned twice by a single sample() call.
---
 pfrl/collections/prioritized.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pfrl/collections/prioritized.py b/pfrl/collections/prioritized.py
index a6d6909..c9212f1 100644
--- a/pfrl/collections/prioritized.py
+++ b/pfrl/collections/prioritized.py
@@ -64,7 +64,7 @@ class PrioritizedBuffer(Generic[T]):
             # Mix uniform samples and prioritized samples
             n_uniform = np.random.binomial(n, uniform_ratio)
             un_indices, un_priorities = self.priority_sums.uniform_sample(
-                n_uniform, remove=self.wait_priority_after_sampling
+                n_uniform, remove=True
             )
             indices.extend(un_indices)
             priorities.extend(un_priorities)
@@ -72,10 +72,15 @@ class PrioritizedBuffer(Generic[T]):
             min_prob = uniform_ratio / len(self) + (1 - uniform_ratio) * min_prob
 
         pr_indices, pr_priorities = self.priority_sums.prioritized_sample(
-            n, remove=self.wait_priority_after_sampling
+            n, remove=True
         )
         indices.extend(pr_indices)
         priorities.extend(pr_priorities)
+        if not self.wait_priority_after_sampling:
+            # Restore priorities only after all the samples have been drawn so
+            # that uniform and prioritized samples never overlap
+            for i, p in zip(indices, priorities):
+                self.priority_sums[i] = p
 
         probs = [
             uniform_ratio / len(self) + (1 - uniform_ratio) * pri / total_priority
-- 
2.43.0


From d636b0c0a73772f343e03b8e1f2bb1aa67bff632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:15 +0000
Subject: [PATCH 03/42] fix: assign updated priorities to the data that were
 sampled

When data are removed from the left of a PrioritizedBuffer between sample()
and set_last_priority() (e.g. appending at full capacity), the remembered
indices pointed to different data, which then received wrong priorities.
---
 pfrl/collections/prioritized.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pfrl/collections/prioritized.py b/pfrl/collections/prioritized.py
index c9212f1..e3eacd1 100644
--- a/pfrl/collections/prioritized.py
+++ b/pfrl/collections/prioritized.py
@@ -19,6 +19,9 @@ T = TypeVar("T")
 
 
 class PrioritizedBuffer(Generic[T]):
+    # Indices of the last sampled data, which are waiting for their priorities
+    sampled_indices: Sequence[int] = ()
+
     def __init__(
         self,
         capacity: Optional[int] = None,
@@ -51,6 +54,8 @@ class PrioritizedBuffer(Generic[T]):
         assert len(self) > 0
         self.priority_sums.popleft()
         self.priority_mins.popleft()
+        # Indices of sampled data must keep pointing to the same data
+        self.sampled_indices = [i - 1 for i in self.sampled_indices]
         return self.data.popleft()
 
     def _sample_indices_and_probabilities(
@@ -114,8 +119,9 @@ class PrioritizedBuffer(Generic[T]):
         assert all([p > 0.0 for p in priority])
         assert len(self.sampled_indices) == len(priority)
         for i, p in zip(self.sampled_indices, priority):
-            self.priority_sums[i] = p
-            self.priority_mins[i] = p
+            if i >= 0:  # Otherwise it has already been removed
+                self.priority_sums[i] = p
+                self.priority_mins[i] = p
             self.max_priority = max(self.max_priority, p)
         self.flag_wait_priority = False
         self.sampled_indices = []
-- 
2.43.0


From 27d58427f20595514343067184119092136c22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:20 +0000
Subject: [PATCH 04/42] fix: never sample an empty or already sampled leaf
 because of rounding

A draw close to the total priority could be rounded past the last positive
leaf of the sum tree, raising AssertionError or returning an item twice.
---
 pfrl/collections/prioritized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/collections/prioritized.py b/pfrl/collections/prioritized.py
index e3eacd1..75bd37e 100644
--- a/pfrl/collections/prioritized.py
+++ b/pfrl/collections/prioritized.py
@@ -263,7 +263,10 @@ def _find(index_left: int, index_right: int, node: Node, pos: float) -> int:
             left_value = node_left[2]
         else:
             left_value = 0.0
-        if pos < left_value:
+        # Never descend into a subtree without positive priority, which might
+        # otherwise happen because of rounding errors
+        right_value = node_right[2] if node_right else 0.0
+        if pos < left_value or right_value == 0.0:
             return _find(index_left, index_center, node_left, pos)
         else:
             return _find(index_center, index_right, node_right, pos - left_value)
-- 
2.43.0


From 36e95a43406d0d5d8a3b57785a2d7ba276af5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:15 +0000
Subject: [PATCH 05/42] fix: return the removed item from
 PersistentRandomAccessQueue.popleft

The queue is documented as perfectly compatible with RandomAccessQueue, whose
popleft returns the item; returning None breaks PersistentEpisodicReplayBuffer
as soon as it has to discard an episode.
---
 pfrl/collections/persistent_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 8850977..e7073df 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -304,7 +304,7 @@ class PersistentRandomAccessQueue(object):
         return self.buffer.sample(n)
 
     def popleft(self):
-        self.buffer.popleft()
+        return self.buffer.popleft()
 
     def __len__(self):
         return len(self.buffer)
-- 
2.43.0


From 7948687c063131f6b8ec9cc532f9d0733d910fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:15 +0000
Subject: [PATCH 06/42] fix: accept any iterable in
 PersistentRandomAccessQueue.extend

An iterator was consumed by the writes to storage, so that nothing reached the
in-memory queue until the next restart.
---
 pfrl/collections/persistent_collections.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index e7073df..c8f99fb 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -285,8 +285,7 @@ class PersistentRandomAccessQueue(object):
 
     def extend(self, xs):
         for x in xs:
-            self._append(x)
-        self.buffer.extend(xs)
+            self.append(x)
 
     def __iter__(self):
         return iter(self.buffer)
-- 
2.43.0


From 561d465404d11c87f57b5802bc0e53636fc77e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:15 +0000
Subject: [PATCH 07/42] fix: write the meta file of PersistentRandomAccessQueue
 atomically

A process killed while creating the queue left an empty meta.pkl, after which
the queue could not be opened any more (EOFError).
---
 pfrl/collections/persistent_collections.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index c8f99fb..92030e9 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -9,7 +9,7 @@ from pfrl.collections.random_access_queue import RandomAccessQueue
 
 # code for future extension. `_VanillaFS` is a dummy of chainerio's
 # FIleSystem class.
-_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs")
+_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs replace")
 _chainerio_available = False
 
 
@@ -260,8 +260,12 @@ class PersistentRandomAccessQueue(object):
             # the import success, e.g. installing the lacking
             # library correctly.
             self.fs.makedirs(self.basedir, exist_ok=True)
-            with self.fs.open(self.meta_file, "wb") as fp:
+            # Write it atomically, otherwise a crash might leave a truncated
+            # meta file, with which the queue cannot be opened any more
+            tmp_meta_file = self.meta_file + ".tmp"
+            with self.fs.open(tmp_meta_file, "wb") as fp:
                 pickle.dump(self.meta, fp)
+            self.fs.replace(tmp_meta_file, self.meta_file)
 
     def close(self):
         self.tail.close()
@@ -340,7 +344,10 @@ class PersistentRandomAccessQueue(object):
             else:
                 # When chainerio is not installed
                 self.fs = _VanillaFS(
-                    open=open, exists=os.path.exists, makedirs=os.makedirs
+                    open=open,
+                    exists=os.path.exists,
+                    makedirs=os.makedirs,
+                    replace=os.replace,
                 )
         else:
             self.fs = fs
-- 
2.43.0


From fae4f08f021bf961c285dea2c23bcdd39e339694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:15 +0000
Subject: [PATCH 08/42] fix: load the newest data through the lineage of
 PersistentRandomAccessQueue

Data of an older ancestor are loaded by whole chunks and could fill the queue,
in which case the newer data of its descendant were not loaded. An ancestor
with maxlen=None raised TypeError.
---
 pfrl/collections/persistent_collections.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 92030e9..1d72d1f 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -389,16 +389,18 @@ class PersistentRandomAccessQueue(object):
                 length += len(list(reader.read_chunk_index(gen)))
                 gen += 1
 
-        if length < num_data_needed and meta["ancestor"] is not None:
-            self._load_ancestor(meta["ancestor"], num_data_needed - length)
+        if meta["ancestor"] is not None:
+            if num_data_needed is None:
+                self._load_ancestor(meta["ancestor"], None)
+            elif length < num_data_needed:
+                self._load_ancestor(meta["ancestor"], num_data_needed - length)
 
         for datadir in datadirs:
             reader = _ChunkReader(datadir, self.fs)
             rank_data = []
-            maxlen = num_data_needed - len(self.buffer)
-            if maxlen <= 0:
-                break
-            _ = reader.read_chunks(maxlen, rank_data)
+            # Data are loaded from the oldest to the newest, so that
+            # self.buffer keeps the newest ones
+            _ = reader.read_chunks(num_data_needed, rank_data)
             if self.logger:
                 self.logger.info(
                     "%d data loaded to buffer (rank=%d)", len(rank_data), self.comm_rank
-- 
2.43.0


From 27a87931121602996ba8b839d53ba4f6bcf4b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:15 +0000
Subject: [PATCH 09/42] fix: find both queues of the ancestor of
 PersistentEpisodicReplayBuffer

The buffer stores its queues in the subdirectories memory and episodic_memory
but looked for those of its ancestor in the ancestor directory itself.
---
 pfrl/replay_buffers/persistent.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pfrl/replay_buffers/persistent.py b/pfrl/replay_buffers/persistent.py
index 19342df..26e1c5d 100644
--- a/pfrl/replay_buffers/persistent.py
+++ b/pfrl/replay_buffers/persistent.py
@@ -121,12 +121,22 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
         self.memory_dir = os.path.join(dirname, "memory")
         self.episodic_memory_dir = os.path.join(dirname, "episodic_memory")
 
+        if ancestor is not None:
+            memory_ancestor = os.path.join(ancestor, "memory")
+            episodic_memory_ancestor = os.path.join(ancestor, "episodic_memory")
+        else:
+            memory_ancestor = None
+            episodic_memory_ancestor = None
+
         if not distributed:
             self.memory = PersistentRandomAccessQueue(
-                self.memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.memory_dir, capacity, ancestor=memory_ancestor, logger=logger
             )
             self.episodic_memory = PersistentRandomAccessQueue(
-                self.episodic_memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.episodic_memory_dir,
+                capacity,
+                ancestor=episodic_memory_ancestor,
+                logger=logger,
             )
         else:
             try:
@@ -136,14 +146,14 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
                 self.memory = mn_coll.PersistentRandomAccessQueue(
                     self.memory_dir,
                     capacity,
-                    ancestor=ancestor,
+                    ancestor=memory_ancestor,
                     logger=logger,
                     group=group,
                 )
                 self.episodic_memory = mn_coll.PersistentRandomAccessQueue(
                     self.episodic_memory_dir,
                     capacity,
-                    ancestor=ancestor,
+                    ancestor=episodic_memory_ancestor,
                     logger=logger,
                     group=group,
                 )
-- 
2.43.0


From e5e3cae061af1af6d6bf59e613a757ec97578b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:32 +0000
Subject: [PATCH 10/42] fix: tell the agent that an evaluation phase ends with
 the current episode

When evaluation for a number of steps stopped in the middle of an episode the
agent never observed a reset, so recurrent states (and other per-episode
states) of that episode leaked into the next evaluation.
---
 pfrl/experiments/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index 7569178..d5eb750 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -40,7 +40,6 @@ def _run_episodes(
         episode_len += 1
         timestep += 1
         reset = done or episode_len == max_episode_len or info.get("needs_reset", False)
-        agent.observe(obs, r, done, reset)
         if reset:
             logger.info(
                 "evaluation episode %s length:%s R:%s", len(scores), episode_len, test_r
@@ -53,6 +52,8 @@ def _run_episodes(
             terminate = len(scores) >= n_episodes
         else:
             terminate = timestep >= n_steps
+        # If this is the last step, make sure the agent observes reset=True
+        agent.observe(obs, r, done, reset or terminate)
     # If all steps were used for a single unfinished episode
     if len(scores) == 0:
         scores.append(float(test_r))
-- 
2.43.0


From 31af89373d8dd6234ef813fb2289fedac33a28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:35 +0000
Subject: [PATCH 11/42] fix: keep the best score of AsyncEvaluator in double
 precision

Rounding the best score to single precision made an equal score (e.g. 0.7)
look like an improvement, so that the best-so-far agent was overwritten, or
made a slightly better one look like none.
---
 pfrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index d5eb750..e22a13d 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -572,7 +572,7 @@ class AsyncEvaluator(object):
         self.prev_eval_t = mp.Value(
             "l", self.step_offset - self.step_offset % self.eval_interval
         )
-        self._max_score = mp.Value("f", np.finfo(np.float32).min)
+        self._max_score = mp.Value("d", np.finfo(np.float32).min)
         self.wrote_header = mp.Value("b", False)
 
         # Create scores.txt
-- 
2.43.0


From dd686326e7a862dff5c01e76eb746de6e6d5e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 12/42] fix: start the global step counter of train_agent_async
 at step_offset

step_offset is documented as the time step from which training starts but was
only used to schedule evaluations: training restarted from step 0.
---
 pfrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index d8b3b40..38a9f44 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -222,7 +222,7 @@ def train_agent_async(
     # Prevent numpy from using multiple threads
     os.environ["OMP_NUM_THREADS"] = "1"
 
-    counter = mp.Value("l", 0)
+    counter = mp.Value("l", step_offset)
     episodes_counter = mp.Value("l", 0)
 
     if stop_event is None:
-- 
2.43.0


From 631c7ec029c387642a6b4431c3bf07a9c5ee366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:51 +0000
Subject: [PATCH 13/42] fix: accept numpy integers as random seeds

random.seed raises TypeError for numpy integers since Python 3.11, so every
worker of train_agent_async with its default random_seeds crashed.
---
 pfrl/utils/random_seed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/utils/random_seed.py b/pfrl/utils/random_seed.py
index 726c22f..1985555 100644
--- a/pfrl/utils/random_seed.py
+++ b/pfrl/utils/random_seed.py
@@ -15,7 +15,8 @@ def set_random_seed(seed):
         seed (int): Random seed [0, 2 ** 32).
     """
     # PFRL depends on random
-    random.seed(seed)
+    # random.seed does not accept numpy integers on recent Python versions
+    random.seed(int(seed))
     # PFRL depends on numpy.random
     np.random.seed(seed)
     # torch.manual_seed is enough for the CPU and GPU
-- 
2.43.0


From b893ec7fdb4fb5233cd706e0cdc490106e0771b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:45 +0000
Subject: [PATCH 14/42] fix: SerialVectorEnv.spec is the spec of its
 environments

It returned the observation space, unlike MultiprocessVectorEnv.spec.
---
 pfrl/envs/serial_vector_env.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/envs/serial_vector_env.py b/pfrl/envs/serial_vector_env.py
index 73104ad..aff4bf7 100644
--- a/pfrl/envs/serial_vector_env.py
+++ b/pfrl/envs/serial_vector_env.py
@@ -18,7 +18,6 @@ class SerialVectorEnv(pfrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
@@ -43,6 +42,10 @@ class SerialVectorEnv(pfrl.env.VectorEnv):
         for env in self.envs:
             env.close()
 
+    @property
+    def spec(self):
+        return self.envs[0].spec
+
     @property
     def num_envs(self):
         return len(self.envs)
-- 
2.43.0


From 59b8862547111efbca91a5e2a1019d6ca42fefc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:37 +0000
Subject: [PATCH 15/42] fix: MaxAndSkipEnv returns frames of the current step
 after an early reset request

When info['needs_reset'] interrupts the repeats, the state is not terminal and
its observation is used for bootstrapping, but the max was taken over frames of
the previous step.
---
 pfrl/wrappers/atari_wrappers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2a49779..6c87006 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -129,10 +129,11 @@ class MaxAndSkipEnv(gym.Wrapper):
         done = None
         for i in range(self._skip):
             obs, reward, done, info = self.env.step(action)
-            if i == self._skip - 2:
-                self._obs_buffer[0] = obs
-            if i == self._skip - 1:
-                self._obs_buffer[1] = obs
+            if i == 0:
+                # Forget the frames of the previous step
+                self._obs_buffer[:] = obs
+            else:
+                self._obs_buffer[i % 2] = obs
             total_reward += reward
             if done or info.get("needs_reset", False):
                 break
-- 
2.43.0


From 43fef3df311eb12d8f6ecd24836446d1820d23d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:37 +0000
Subject: [PATCH 16/42] fix: FireResetEnv.reset returns the observation of the
 current episode

When the episode ended while firing, the observation of the ended episode was
returned although the environment had been reset.
---
 pfrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 6c87006..11225ad 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -68,7 +68,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get("needs_reset", False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From 43f5719ff7c1eb93a2fd73696f203be8a327d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:37 +0000
Subject: [PATCH 17/42] fix: EpisodicLifeEnv.reset does not hand out an ended
 episode

If the no-op step after a lost life ends the episode, the environment has to be
reset, otherwise it is stepped after done.
---
 pfrl/wrappers/atari_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 11225ad..3dad69a 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -110,7 +110,9 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get("needs_reset", False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 2d6dce21ad1db40319263e802608ec688622841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 18/42] fix: respect n_times_update in TD3

TD3 accepted n_times_update but always updated once per update interval.
---
 pfrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index e70e7e9..9a35cb1 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -128,7 +128,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From 48209a089ba471f67a5878597392e83129e7bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 19/42] fix: discount n-step targets of DDPG by gamma to the
 power of their lengths

With a replay buffer with num_steps > 1 the next state is n steps ahead, so
the bootstrapped value must be discounted by gamma^n like in TD3 and SAC.
---
 pfrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 9319f54..2513b17 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -153,13 +153,14 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch["is_state_terminal"]
         batch_state = batch["state"]
         batch_actions = batch["action"]
+        batch_discount = batch["discount"]
         batchsize = len(batch_rewards)
 
         with torch.no_grad():
             assert not self.recurrent
             next_actions = self.target_policy(batch_next_state).sample()
             next_q = self.target_q_function((batch_next_state, next_actions))
-            target_q = batch_rewards + self.gamma * (
+            target_q = batch_rewards + batch_discount * (
                 1.0 - batch_terminal
             ) * next_q.reshape((batchsize,))
 
-- 
2.43.0


From c77f0916ccda0b5769c74b90c4113eead1d2b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 20/42] fix: use the given batch_states for updates of DDPG,
 TD3 and SAC

It was only used for acting, unlike DQN.
---
 pfrl/agents/ddpg.py              | 8 +++++++-
 pfrl/agents/soft_actor_critic.py | 8 +++++++-
 pfrl/agents/td3.py               | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 2513b17..ba6a093 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -190,7 +190,13 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
 
         self.critic_optimizer.zero_grad()
         self.compute_critic_loss(batch).backward()
diff --git a/pfrl/agents/soft_actor_critic.py b/pfrl/agents/soft_actor_critic.py
index 57f76ae..791862a 100644
--- a/pfrl/agents/soft_actor_critic.py
+++ b/pfrl/agents/soft_actor_critic.py
@@ -309,7 +309,13 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
 
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index 9a35cb1..3e5c78c 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -252,7 +252,13 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
         self.update_q_func(batch)
         if self.q_func_n_updates % self.policy_update_delay == 0:
             self.update_policy(batch)
-- 
2.43.0


From 06c3100b0c2858e5da92d18dce63f168b72d000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 21/42] fix: copy non-float buffers in soft_copy_param

state_dict() returns a new dict, so that assigning to it did not change the
target link.
---
 pfrl/utils/copy_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index c6887a9..eb7e93f 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -19,7 +19,7 @@ def soft_copy_param(target_link, source_link, tau):
         else:
             # Scalar type
             # Some modules such as BN has scalar value `num_batches_tracked`
-            target_dict[k] = source_value
+            target_value.copy_(source_value)
 
 
 def copy_grad(target_link, source_link):
-- 
2.43.0


From 6629de7584bf98f533d3ffe1565ea438d0b8b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:53 +0000
Subject: [PATCH 22/42] fix: return the zero solution from conjugate_gradient
 when b is zero

The residual of the initial solution was not examined, so that b=0 resulted in
0/0 = NaN.
---
 pfrl/utils/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfrl/utils/conjugate_gradient.py b/pfrl/utils/conjugate_gradient.py
index 6ea0049..e675965 100644
--- a/pfrl/utils/conjugate_gradient.py
+++ b/pfrl/utils/conjugate_gradient.py
@@ -20,6 +20,8 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     """
     x = torch.zeros_like(b)
     r0 = b - A_product_func(x)
+    if torch.norm(r0) < tol:
+        return x
     p = r0
     for _ in range(max_iter):
         a = torch.matmul(r0, r0) / torch.matmul(A_product_func(p), p)
-- 
2.43.0


From c71de1f24f7d2978b953d5ce666505eade9a0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:43 +0000
Subject: [PATCH 23/42] fix: allow equal advantages in recurrent PPO

A data set whose advantages are all equal, e.g., without rewards and with
zero-initialized values, has zero standard deviation, which is no error in the
non-recurrent case either.
---
 pfrl/agents/ppo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/ppo.py b/pfrl/agents/ppo.py
index 03b70c6..45e1b76 100644
--- a/pfrl/agents/ppo.py
+++ b/pfrl/agents/ppo.py
@@ -532,7 +532,7 @@ class PPO(agent.AttributeSavingMixin, agent.BatchAgent):
             self.n_updates += 1
 
     def _update_once_recurrent(self, episodes, mean_advs, std_advs):
-        assert std_advs is None or std_advs > 0
+        assert std_advs is None or std_advs >= 0
 
         device = self.device
 
-- 
2.43.0


From 39082a9ad2ecfecc28988dbae864d51f5632dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:51 +0000
Subject: [PATCH 24/42] fix: use the given batch_states everywhere in TRPO

Updates of the policy and the value function used the default batch_states
instead of the one given to the agent.
---
 pfrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/trpo.py b/pfrl/agents/trpo.py
index 312185b..dd057a3 100644
--- a/pfrl/agents/trpo.py
+++ b/pfrl/agents/trpo.py
@@ -381,7 +381,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         self.obs_normalizer.experience(states)
 
     def _update_vf(self, dataset):
@@ -396,7 +396,9 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         for batch in _yield_minibatches(
             dataset, minibatch_size=self.vf_batch_size, num_epochs=self.vf_epochs
         ):
-            states = batch_states([b["state"] for b in batch], self.device, self.phi)
+            states = self.batch_states(
+                [b["state"] for b in batch], self.device, self.phi
+            )
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = torch.as_tensor(
@@ -430,7 +432,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         assert "adv" in dataset[0]
 
         # Use full-batch
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = torch.as_tensor([b["action"] for b in dataset], device=self.device)
-- 
2.43.0


From 6ca9708e603cd10055248a05403aefb32394eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:30 +0000
Subject: [PATCH 25/42] fix: credit every reward to the action that led to it
 in REINFORCE

The return of each action skipped the reward that directly follows it, and the
last reward of the episode was counted twice.
---
 pfrl/agents/reinforce.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index c34baeb..cfb3d70 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -140,7 +140,6 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
                 self.log_prob_sequences[-1] = []
                 self.entropy_sequences[-1] = []
             elif done:
-                self.reward_sequences[-1].append(reward)
                 if self.backward_separately:
                     self.accumulate_grad()
                     if self.n_backward == self.batchsize:
@@ -181,9 +180,9 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         for r_seq, log_prob_seq, ent_seq in zip(
             self.reward_sequences, self.log_prob_sequences, self.entropy_sequences
         ):
-            assert len(r_seq) - 1 == len(log_prob_seq) == len(ent_seq)
+            assert len(r_seq) == len(log_prob_seq) == len(ent_seq)
             # Convert rewards into returns (=sum of future rewards)
-            R_seq = np.cumsum(list(reversed(r_seq[1:])))[::-1]
+            R_seq = np.cumsum(list(reversed(r_seq)))[::-1]
             for R, log_prob, entropy in zip(R_seq, log_prob_seq, ent_seq):
                 loss = -R * log_prob - self.beta * entropy
                 losses.append(loss)
-- 
2.43.0


From 1281d604f63d7b9d478d2c6460f7aea8e34d8981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:30 +0000
Subject: [PATCH 26/42] fix: support resuming training of A2C, A3C and ACER
 with step_offset

train_agent(_batch) sets agent.t to step_offset, but these agents assumed that
t starts from zero: A2C did not allocate its storage and the others looked for
data of steps that had never happened.
---
 pfrl/agents/a2c.py  | 5 ++++-
 pfrl/agents/a3c.py  | 3 +++
 pfrl/agents/acer.py | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index d0768f6..89c9f7a 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -101,6 +101,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         self.t = 0
         self.t_start = 0
+        self.states = None
 
         # Stats
         self.average_actor_loss = 0
@@ -227,7 +228,9 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         statevar = self.batch_states(batch_obs, self.device, self.phi)
 
-        if self.t == 0:
+        if self.states is None:
+            # self.t can be non-zero here if training is resumed
+            self.t_start = self.t
             with torch.no_grad():
                 pout, _ = self.model(statevar)
                 action = pout.sample()
diff --git a/pfrl/agents/a3c.py b/pfrl/agents/a3c.py
index 90fb05e..d2062c8 100644
--- a/pfrl/agents/a3c.py
+++ b/pfrl/agents/a3c.py
@@ -240,6 +240,9 @@ class A3C(agent.AttributeSavingMixin, agent.AsyncAgent):
             self._observe_eval(obs, reward, done, reset)
 
     def _act_train(self, obs):
+        if not self.past_obs:
+            # self.t can be set from the outside if training is resumed
+            self.t_start = self.t
         self.past_obs[self.t] = obs
 
         with torch.no_grad():
diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 5654ed6..2e7979a 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -711,6 +711,9 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
             self._observe_eval(obs, reward, done, reset)
 
     def _act_train(self, obs):
+        if not self.past_actions:
+            # self.t can be set from the outside if training is resumed
+            self.t_start = self.t
         statevar = batch_states([obs], self.device, self.phi)
 
         if self.recurrent:
-- 
2.43.0


From b56e7c3b96ea73d7e1a8e142fa495fa889703db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:56 +0000
Subject: [PATCH 27/42] fix: restore the mode of every submodule after
 evaluating()

---
 pfrl/utils/contexts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pfrl/utils/contexts.py b/pfrl/utils/contexts.py
index e5cd867..baf8ae1 100644
--- a/pfrl/utils/contexts.py
+++ b/pfrl/utils/contexts.py
@@ -4,10 +4,11 @@ from contextlib import contextmanager
 @contextmanager
 def evaluating(net):
     """Temporarily switch to evaluation mode."""
-    istrain = net.training
+    modes = [(module, module.training) for module in net.modules()]
     try:
         net.eval()
         yield net
     finally:
-        if istrain:
-            net.train()
+        # Restore modes one by one since submodules can have their own modes
+        for module, training in modes:
+            module.training = training
-- 
2.43.0


From 0ba1855e8c79e5d926a2cf17adf1f4df1f0529e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:56 +0000
Subject: [PATCH 28/42] fix: act in evaluation mode of the model when A2C, ACER
 and REINFORCE are evaluated

---
 pfrl/agents/a2c.py       | 4 ++--
 pfrl/agents/acer.py      | 4 ++--
 pfrl/agents/reinforce.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index 89c9f7a..39b91eb 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -4,7 +4,7 @@ from logging import getLogger
 import torch
 
 from pfrl import agent
-from pfrl.utils import clip_l2_grad_norm_
+from pfrl.utils import clip_l2_grad_norm_, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 
@@ -253,7 +253,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
     def _batch_act_eval(self, batch_obs):
         assert not self.training
         statevar = self.batch_states(batch_obs, self.device, self.phi)
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             pout, _ = self.model(statevar)
             if self.act_deterministically:
                 action = mode_of_distribution(pout)
diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 2e7979a..6e7230f 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -7,7 +7,7 @@ from torch import nn
 
 from pfrl import agent
 from pfrl.action_value import SingleActionValue
-from pfrl.utils import clip_l2_grad_norm_, copy_param
+from pfrl.utils import clip_l2_grad_norm_, copy_param, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 from pfrl.utils.recurrent import detach_recurrent_state, one_step_forward
@@ -761,7 +761,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def _act_eval(self, obs):
         # Use the process-local model for acting
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             statevar = batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 (action_distrib, _, _), self.test_recurrent_states = one_step_forward(
diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index cfb3d70..1180aa6 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -6,7 +6,7 @@ import torch
 
 import pfrl
 from pfrl import agent
-from pfrl.utils import clip_l2_grad_norm_
+from pfrl.utils import clip_l2_grad_norm_, evaluating
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 from pfrl.utils.recurrent import one_step_forward
 
@@ -155,7 +155,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
             self.train_recurrent_states = None
 
     def _act_eval(self, obs):
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             batch_obs = self.batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 action_distrib, self.test_recurrent_states = one_step_forward(
-- 
2.43.0


From 7b088cd34c0a63e1481cf0c5ff9c4c23cb158544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:10 +0000
Subject: [PATCH 29/42] fix: restore ACER's average model on load

---
 pfrl/agents/acer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 6e7230f..db1755d 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -824,6 +824,9 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
     def load(self, dirname):
         super().load(dirname)
         copy_param.copy_param(target_link=self.shared_model, source_link=self.model)
+        copy_param.copy_param(
+            target_link=self.shared_average_model, source_link=self.model
+        )
 
     def get_statistics(self):
         return [
-- 
2.43.0


From 6bb6237e0e12841bd10ab9ba57025e9dd6327b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:10 +0000
Subject: [PATCH 30/42] fix: forget the cached standard deviation when
 EmpiricalNormalization is loaded

---
 pfrl/nn/empirical_normalization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pfrl/nn/empirical_normalization.py b/pfrl/nn/empirical_normalization.py
index a49560e..92f1950 100644
--- a/pfrl/nn/empirical_normalization.py
+++ b/pfrl/nn/empirical_normalization.py
@@ -58,6 +58,11 @@ class EmpiricalNormalization(nn.Module):
 
         return self._cached_std_inverse
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        super()._load_from_state_dict(*args, **kwargs)
+        # clear cache
+        self._cached_std_inverse = None
+
     def experience(self, x):
         """Learn input values without computing the output values of them"""
 
-- 
2.43.0


From e17b0f016dbe0a6c5e27e5da59801242ba914723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:43 +0000
Subject: [PATCH 31/42] fix: let LinearDecayEpsilonGreedy be used with
 decay_steps=0

It accepts decay_steps=0 but divided by zero at t=0.
---
 pfrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/explorers/epsilon_greedy.py b/pfrl/explorers/epsilon_greedy.py
index c034d6a..6d82c50 100644
--- a/pfrl/explorers/epsilon_greedy.py
+++ b/pfrl/explorers/epsilon_greedy.py
@@ -69,7 +69,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 22ada9400300e9df1b07c812a2604dc782177d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:30 +0000
Subject: [PATCH 32/42] fix: update priorities under the replay buffer lock in
 actor-learner training

The learner updated the priorities of the sampled experiences while the
poller could be appending to (and evicting from) the same buffer.
---
 pfrl/agents/dqn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index a05ea5a..16e828c 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -1,4 +1,5 @@
 import collections
+import contextlib
 import copy
 import ctypes
 import multiprocessing as mp
@@ -258,6 +259,8 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         self.optim_t = 0  # Compensate pytorch optim not having `t`
         self._cumulative_steps = 0
         self.target_model = make_target_model_as_copy(self.model)
+        # Replaced by a lock if the replay buffer is shared with another thread
+        self._replay_buffer_lock: Any = contextlib.nullcontext()
 
         # Statistics
         self.q_record: collections.deque = collections.deque(maxlen=1000)
@@ -353,7 +356,8 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         loss = self._compute_loss(exp_batch, errors_out=errors_out)
         if has_weight:
             assert isinstance(self.replay_buffer, PrioritizedReplayBuffer)
-            self.replay_buffer.update_errors(errors_out)
+            with self._replay_buffer_lock:
+                self.replay_buffer.update_errors(errors_out)
 
         self.loss_record.append(float(loss.detach().cpu().numpy()))
 
@@ -755,6 +759,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
             )
 
         replay_buffer_lock = mp.Lock()
+        self._replay_buffer_lock = replay_buffer_lock
 
         poller_stop_event = mp.Event()
         poller = pfrl.utils.StoppableThread(
-- 
2.43.0


From dca8761dd1fb6556c182459f7a2f6cac0de89ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:30 +0000
Subject: [PATCH 33/42] fix: keep serving actors after an exception in
 actor-learner training

The poller stopped as soon as the learner had failed, so that an actor
waiting for a reply, in particular the one that saves the agent before
killing all the processes, hung forever.
---
 pfrl/agents/dqn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 16e828c..174c9c0 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -615,7 +615,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         if pipe.closed:
             return
         try:
-            while pipe.poll() and not exception_event.is_set():
+            while pipe.poll():
                 cmd, data = pipe.recv()
                 if cmd == "get_statistics":
                     assert data is None
@@ -724,7 +724,9 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         exception_event: mp.synchronize.Event,
     ) -> None:
         # To stop this loop, call stop_event.set()
-        while not stop_event.is_set() and not exception_event.is_set():
+        # Actors still wait for replies, e.g., to save the agent, after an
+        # exception, so keep serving them
+        while not stop_event.is_set():
             time.sleep(1e-6)
             # Poll actors for messages
             for i, pipe in enumerate(pipes):
-- 
2.43.0


From 7dfe85149944f0f1f28cb1837b28ea83de2d307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:30 +0000
Subject: [PATCH 34/42] fix: do not save or load models in the middle of an
 update in actor-learner training

Save and load requests of actors are served by the poller thread while the
learner thread updates the same parameters.
---
 pfrl/agents/dqn.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 174c9c0..5ae9e52 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -610,6 +610,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         actor_idx: int,
         pipe: mp.connection.Connection,
         replay_buffer_lock: mp.synchronize.Lock,
+        model_lock: mp.synchronize.Lock,
         exception_event: mp.synchronize.Event,
     ) -> None:
         if pipe.closed:
@@ -623,10 +624,12 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                         stats = self.get_statistics()
                     pipe.send(stats)
                 elif cmd == "load":
-                    self.load(data)
+                    with model_lock:
+                        self.load(data)
                     pipe.send(None)
                 elif cmd == "save":
-                    self.save(data)
+                    with model_lock:
+                        self.save(data)
                     pipe.send(None)
                 elif cmd == "transition":
                     with replay_buffer_lock:
@@ -654,6 +657,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         shared_model: torch.nn.Module,
         pipes: Sequence[mp.connection.Connection],
         replay_buffer_lock: mp.synchronize.Lock,
+        model_lock: mp.synchronize.Lock,
         stop_event: mp.synchronize.Event,
         exception_event: mp.synchronize.Event,
         n_updates: Optional[int] = None,
@@ -679,19 +683,21 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                         episodes = self.replay_buffer.sample_episodes(
                             self.minibatch_size, self.episodic_update_len
                         )
-                    self.update_from_episodes(episodes)
+                    with model_lock:
+                        self.update_from_episodes(episodes)
                 else:
                     with replay_buffer_lock:
                         transitions = self.replay_buffer.sample(self.minibatch_size)
 
-                    self.update(transitions)
+                    with model_lock:
+                        self.update(transitions)
 
                 # Update the shared model. This can be expensive if GPU is used
                 # since this is a DtoH copy, so it is updated only at regular
                 # intervals.
                 update_counter += 1
                 if update_counter % self.actor_update_interval == 0:
-                    with self.update_counter.get_lock():
+                    with model_lock, self.update_counter.get_lock():
                         self.update_counter.value += 1
                         shared_model.load_state_dict(self.model.state_dict())
 
@@ -710,7 +716,8 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                     hook(None, self, effective_timestep)
 
                 if effective_timestep % self.target_update_interval == 0:
-                    self.sync_target_network()
+                    with model_lock:
+                        self.sync_target_network()
         except Exception:
             self.logger.exception("Learner loop failed. Exiting")
             exception_event.set()
@@ -720,6 +727,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         shared_model: torch.nn.Module,
         pipes: Sequence[mp.connection.Connection],
         replay_buffer_lock: mp.synchronize.Lock,
+        model_lock: mp.synchronize.Lock,
         stop_event: mp.synchronize.Event,
         exception_event: mp.synchronize.Event,
     ) -> None:
@@ -730,7 +738,9 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
             time.sleep(1e-6)
             # Poll actors for messages
             for i, pipe in enumerate(pipes):
-                self._poll_pipe(i, pipe, replay_buffer_lock, exception_event)
+                self._poll_pipe(
+                    i, pipe, replay_buffer_lock, model_lock, exception_event
+                )
 
     def setup_actor_learner_training(
         self,
@@ -762,6 +772,8 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
 
         replay_buffer_lock = mp.Lock()
         self._replay_buffer_lock = replay_buffer_lock
+        # The poller must not save or load models the learner is updating
+        model_lock = mp.Lock()
 
         poller_stop_event = mp.Event()
         poller = pfrl.utils.StoppableThread(
@@ -770,6 +782,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                 shared_model=shared_model,
                 pipes=learner_pipes,
                 replay_buffer_lock=replay_buffer_lock,
+                model_lock=model_lock,
                 stop_event=poller_stop_event,
                 exception_event=exception_event,
             ),
@@ -783,6 +796,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                 shared_model=shared_model,
                 pipes=learner_pipes,
                 replay_buffer_lock=replay_buffer_lock,
+                model_lock=model_lock,
                 stop_event=learner_stop_event,
                 n_updates=n_updates,
                 exception_event=exception_event,
-- 
2.43.0


From 4f048e8628e16b01e7e4c1c02ac27ef09d92335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 35/42] fix: check under the lock that enough episodes are left
 to sample in the learner

In recurrent actor-learner training the poller could evict episodes between
the learner's check and its sampling, which made the learner fail.
---
 pfrl/agents/dqn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 5ae9e52..08ed90e 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -680,6 +680,9 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                 if self.recurrent:
                     assert isinstance(self.replay_buffer, AbstractEpisodicReplayBuffer)
                     with replay_buffer_lock:
+                        # Appending an episode can evict several ones
+                        if not self._can_start_replay():
+                            continue
                         episodes = self.replay_buffer.sample_episodes(
                             self.minibatch_size, self.episodic_update_len
                         )
-- 
2.43.0


From 4eae7fa876062690e36131f36f680b1f6ca2d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:45 +0000
Subject: [PATCH 36/42] fix: start from the shared parameters with make_agent
 and shared memory in train_agent_async

The agent made by each process got the shared model but kept acting and
computing its first gradients with its own randomly initialized parameters.
---
 pfrl/experiments/train_agent_async.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index 38a9f44..6634817 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -282,6 +282,9 @@ def train_agent_async(
             if use_shared_memory:
                 for attr in agent.shared_attributes:
                     setattr(local_agent, attr, getattr(agent, attr))
+                if hasattr(local_agent, "sync_parameters"):
+                    # Its own parameters must start from the shared ones
+                    local_agent.sync_parameters()
         else:
             local_agent = agent
         local_agent.process_idx = process_idx
-- 
2.43.0


From f2145db205be398567e6b967091c5b07ca9dfb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:32 +0000
Subject: [PATCH 37/42] fix: keep the model in SingleModelStateActionQFunction

---
 pfrl/q_functions/state_action_q_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/q_functions/state_action_q_functions.py b/pfrl/q_functions/state_action_q_functions.py
index be540f1..36a102e 100644
--- a/pfrl/q_functions/state_action_q_functions.py
+++ b/pfrl/q_functions/state_action_q_functions.py
@@ -17,7 +17,8 @@ class SingleModelStateActionQFunction(nn.Module, StateActionQFunction):
     """
 
     def __init__(self, model):
-        super().__init__(model=model)
+        super().__init__()
+        self.model = model
 
     def forward(self, x, a):
         h = self.model(x, a)
-- 
2.43.0


From 3244aef74d4e5e654d03139008512b9903caa2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:02 +0000
Subject: [PATCH 38/42] fix: bound the deviation of NormalizedRewardFilter from
 below by eps

---
 pfrl/utils/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/reward_filter.py b/pfrl/utils/reward_filter.py
index 9df735f..0720e46 100644
--- a/pfrl/utils/reward_filter.py
+++ b/pfrl/utils/reward_filter.py
@@ -12,7 +12,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward**2
         var = self.average_reward_squared - self.average_reward**2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


From a132e9f9939d9d6f2533945a452ff9e20119e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:02 +0000
Subject: [PATCH 39/42] fix: stop repeating an action when the environment asks
 for a reset

---
 pfrl/utils/env_modifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/env_modifiers.py b/pfrl/utils/env_modifiers.py
index a605b7b..3b3cd42 100644
--- a/pfrl/utils/env_modifiers.py
+++ b/pfrl/utils/env_modifiers.py
@@ -75,7 +75,7 @@ def make_action_repeated(env, n_times):
         for _ in range(n_times):
             obs, r, done, info = old_step(action)
             r_total += r
-            if done:
+            if done or info.get("needs_reset", False):
                 break
         return obs, r_total, done, info
 
-- 
2.43.0


From 3287167fe6281d5f7ba7464fc916444a47448954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:02 +0000
Subject: [PATCH 40/42] fix: forget the cached standard deviation of
 EmpiricalNormalization on soft copies

---
 pfrl/utils/copy_param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index eb7e93f..a575616 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -20,6 +20,8 @@ def soft_copy_param(target_link, source_link, tau):
             # Scalar type
             # Some modules such as BN has scalar value `num_batches_tracked`
             target_value.copy_(source_value)
+    # Let modules update values derived from their parameters and buffers
+    target_link.load_state_dict(target_dict)
 
 
 def copy_grad(target_link, source_link):
-- 
2.43.0


From 9f0d709be4c16d10895e559c5ec9c422071848f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:12 +0000
Subject: [PATCH 41/42] fix: do not take a partly extracted pretrained model
 for a cached one

---
 pfrl/utils/pretrained_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pfrl/utils/pretrained_models.py b/pfrl/utils/pretrained_models.py
index 3c7e64d..533dbf1 100644
--- a/pfrl/utils/pretrained_models.py
+++ b/pfrl/utils/pretrained_models.py
@@ -151,9 +151,11 @@ def download_and_store_model(alg, url, env, model_type):
         is_cached = os.path.exists(path)
         if not is_cached:
             cache_path = cached_download(posixpath.join(url_basepath, file))
-            os.rename(cache_path, path)
-            with zipfile.ZipFile(path, "r") as zip_ref:
+            # Put the file in place only after everything is extracted because
+            # its existence means that the model is cached
+            with zipfile.ZipFile(cache_path, "r") as zip_ref:
                 zip_ref.extractall(root)
+            os.rename(cache_path, path)
         return os.path.join(root, model_type), is_cached
 
 
-- 
2.43.0


From bec83ad2425f23ede688b9d9f53a15b9aa15b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:59 +0000
Subject: [PATCH 42/42] fix: train_agent_async lost tensorboard records of
 evaluations that ended after stop_event was set

The tensorboard writer shared the stop_event of the training, so when one
worker reached successful_score (or the training was stopped from outside)
the writer could exit while other workers were still evaluating; their
records were queued but never written.
---
 pfrl/experiments/train_agent_async.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index 6634817..841ae26 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -264,7 +264,10 @@ def train_agent_async(
             logger=logger,
         )
         if use_tensorboard:
-            evaluator.start_tensorboard_writer(outdir, stop_event)
+            # stop_event may get set while other workers are still evaluating,
+            # so the writer is stopped by its own event after all of them exit.
+            tb_stop_event = mp.Event()
+            evaluator.start_tensorboard_writer(outdir, tb_stop_event)
 
     if random_seeds is None:
         random_seeds = np.arange(processes)
@@ -321,7 +324,11 @@ def train_agent_async(
         if eval_env is not env:
             eval_env.close()
 
-    async_.run_async(processes, run_func)
+    try:
+        async_.run_async(processes, run_func)
+    finally:
+        if evaluator is not None and use_tensorboard:
+            tb_stop_event.set()
 
     stop_event.set()
 
-- 
2.43.0

