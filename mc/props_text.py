"""Texts of the properties (source of properties.jsonl / MANIFEST.json)."""

PROPS = []


def P(**k):
    PROPS.append(k)


P(
    id="P01",
    title="n-step replay buffers hold exactly the windows of what was appended",
    statement=(
        "For every interleaving of appended transitions (terminal or not) and episode stops over any "
        "environment ids, an n-step replay buffer (uniform or prioritized) contains, for each transition whose "
        "n-step window is complete or whose episode has ended, exactly one experience: that transition followed "
        "by its up to n-1 successors of the same environment and episode, all fields unchanged; at capacity the "
        "oldest experiences are discarded first. "
        "sample(k) returns k different stored experiences whatever the random draws (each equally likely in the "
        "uniform buffer), and sampling changes nothing. "
        "Saving and loading into a fresh buffer reproduces the stored experiences, and the loaded buffer keeps "
        "obeying the same rules, capacity included."
    ),
    over=["histories", "configurations", "inputs"],
    qtext="all append/terminal/stop histories over several env ids, all num_steps and capacities, all RNG outcomes of sampling",
    why="tests append a handful of transitions for one or two layouts; they do not cover interleaved environments with evictions, stops right after terminals, or every draw",
    files=["pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffers/prioritized.py", "pfrl/collections/random_access_queue.py", "pfrl/collections/prioritized.py"],
    mechanism=[("sliding n-step windows per env", "ReplayBuffer.append / stop_current_episode"), ("FIFO eviction", "RandomAccessQueue.append, PrioritizedBuffer.append")],
    state=[("memory", "stored experiences", "ReplayBuffer.memory"), ("last_n_transitions", "open windows per env", "ReplayBuffer.last_n_transitions")],
    observe_at=["len(buffer)", "buffer.sample(len(buffer))", "buffer.save/load"],
    technique="exhaustive enumeration of operation sequences and RNG outcomes on the real buffers against a reference model",
    level_note="Exhaustive within the stated depth; payload values are opaque to the buffer so small alphabets suffice; larger sizes are reached by repeated patterns.",
)

P(
    id="P02",
    title="Episodic replay buffers hold exactly the completed episodes",
    statement=(
        "For every interleaving of appended transitions and episode stops over any environment ids, an episodic "
        "replay buffer (uniform or prioritized) contains exactly the completed episodes with their transitions in "
        "order and unchanged, discarding whole oldest episodes while the total number of transitions exceeds the capacity, "
        "and its length, episode count, transition sampling and episode sampling all describe that same content. "
        "Sampling k episodes returns k different stored episodes, or, with a maximum length, one contiguous "
        "subsequence of each of exactly min(max_len, episode length) transitions with every start position equally likely, for every random outcome. "
        "Saving and loading into a fresh buffer reproduces the content and later operations continue under the same rules."
    ),
    over=["histories", "configurations", "inputs"],
    qtext="all append/terminal/stop histories over several env ids, all capacities, all RNG outcomes of episode sampling",
    why="tests use a few fixed episode lengths and a single sampled draw; capacity and multi-env interleavings are barely touched",
    files=["pfrl/replay_buffers/episodic.py", "pfrl/replay_buffers/prioritized_episodic.py", "pfrl/replay_buffer.py"],
    mechanism=[("episode completion and whole-episode eviction", "EpisodicReplayBuffer.stop_current_episode"), ("random_subseq", "pfrl/replay_buffer.py")],
    state=[("memory / episodic_memory", "flat and per-episode views", "EpisodicReplayBuffer")],
    observe_at=["len(buffer)", "n_episodes", "sample", "sample_episodes", "save/load"],
    technique="exhaustive enumeration of operation sequences and RNG outcomes on the real buffers against a reference model",
    level_note="Exhaustive within the stated depth; sampling probabilities are computed exactly by enumerating the draws.",
)

P(
    id="P03",
    title="RandomAccessQueue is a bounded FIFO queue under every operation sequence",
    statement=(
        "Under every sequence of construction from items, append, extend (any iterable), popleft and item assignment, a "
        "RandomAccessQueue with or without maxlen has the same length, iteration order, element at every positive "
        "and negative index, popleft results and IndexErrors as a collections.deque with the same maxlen. "
        "sample(k) returns the elements at k different positions for every random outcome and changes nothing. "
        "A pickle round trip preserves the behaviour, including maxlen."
    ),
    over=["histories", "configurations"],
    qtext="all operation sequences, all maxlen values, all index arguments",
    why="the unit test compares against a deque on one pseudo-random run; the two-list representation has many rotation states",
    files=["pfrl/collections/random_access_queue.py", "pfrl/utils/random.py"],
    mechanism=[("two-list queue with reversed front", "RandomAccessQueue.__getitem__/__setitem__/popleft/extend")],
    state=[("_queue_front/_queue_back", "two halves of the queue", "RandomAccessQueue")],
    observe_at=["len, iteration, indexing, popleft, sample, pickle"],
    technique="exhaustive enumeration of operation sequences on the real queue in lockstep with collections.deque",
    level_note="Exhaustive within the stated depth (all operation sequences), plus all short patterns repeated to larger sizes.",
)

P(
    id="P04",
    title="Prioritized replay samples in proportion to the current priorities",
    statement=(
        "After every sequence of appends (default or explicit priority), removals, samples and priority updates, the next "
        "draw of a prioritized buffer selects each stored item with probability proportional to its current priority, without "
        "repeating an item within a sample, and reports exactly the resulting (uniform-mixture) selection probabilities and minimum probability. "
        "Updated priorities go to the items that were sampled, even if items were appended or evicted in between, and new items get the largest priority seen so far. "
        "Importance weights are (N*P)^-beta, or P relative to the batch or memory minimum, with beta annealed to at most 1, and errors become (clipped error + eps)^alpha."
    ),
    over=["histories", "inputs", "configurations"],
    qtext="all operation histories, all random draws (both ends of the interval included), capacity / wait / uniform-ratio configurations",
    why="tests compare empirical frequencies on one fixed buffer; they cannot see mis-assigned priorities after evictions, tree rotations or edge draws",
    files=["pfrl/collections/prioritized.py", "pfrl/replay_buffers/prioritized.py"],
    mechanism=[("sum/min trees over a moving window", "TreeQueue._write/append/popleft, _find"), ("sampled_indices", "PrioritizedBuffer.sample / set_last_priority")],
    state=[("priority_sums/priority_mins", "trees of priorities", "PrioritizedBuffer")],
    observe_at=["sample() results, probabilities, weights", "distribution of the next draw"],
    technique="exhaustive enumeration of operation sequences and RNG strata on the real buffer; exact next-draw distribution compared with a list model",
    level_note="Exhaustive within the stated depth with integer priorities (distribution decided exactly by stratification); float priorities at interval edges separately.",
)

P(
    id="P05",
    title="Persistent replay buffers recover all acknowledged data after any crash",
    statement=(
        "If the process is killed at any point, including in the middle of any write or of the recovery itself, reopening a persistent queue or "
        "replay buffer succeeds and yields the newest items (up to the maximum length) of all the operations that had returned, plus at most a prefix of the "
        "operation in flight, unaltered and in order; further appends survive the next restart as well. "
        "Opening with an ancestor yields the newest items of the whole lineage, oldest generation first. "
        "Apart from item assignment and data removed from memory reappearing after a restart, the persistent queue behaves like the in-memory one."
    ),
    over=["crash_points", "histories", "configurations", "fault_sequences"],
    qtext="all short histories x all kill points and torn writes x chunk sizes x maximum lengths x lineages",
    why="tests reopen only after orderly closes and never rotate chunks; crash states are not reachable by the suite",
    files=["pfrl/collections/persistent_collections.py", "pfrl/replay_buffers/persistent.py"],
    mechanism=[("data before index, crc, chunk generations", "_ChunkWriter.append, _ChunkReader"), ("meta file", "PersistentRandomAccessQueue._load_meta"), ("lineage", "_load_ancestor")],
    state=[("chunk files", "append-only log", "<basedir>/rank0/chunk.N.{idx,data}")],
    observe_at=["reopened queue contents", "reopened buffer samples"],
    technique="exhaustive crash-point enumeration (every file-system effect and torn write) of all short histories on the real code against the log of acknowledged operations",
    level_note="Kill model (kernel keeps what was written); histories, chunk sizes and torn offsets bounded as stated; one known finding (capacity of the persistent episodic buffer).",
)

P(
    id="P06",
    title="train_agent drives env, agent, hooks, checkpoints and evaluations as specified",
    statement=(
        "For every environment behaviour (any pattern of terminal steps and needs_reset), step budget, episode limit, "
        "step offset, checkpoint and evaluation schedule, train_agent and train_agent_with_evaluation: let the agent act on the "
        "environment's current observation and observe that step's observation, reward and terminal flag, with reset true exactly when the "
        "episode limit is reached or needs_reset is reported; reset the environment exactly when an episode ended and training goes on; take exactly the remaining "
        "number of steps, or stop after the first evaluation whose best score reaches successful_score; call each step hook once per step with that "
        "step's number; save <t>_checkpoint at every multiple of checkpoint_freq before the end, <t>_finish once at the end, and, if anything "
        "raises, <t>_except with the current agent and let the exception through; evaluate exactly when a multiple of eval_interval was "
        "passed since the last evaluation and an episode ends (or at any step with eval_during_episode), in evaluation mode, and return one history entry and write one scores.txt row per evaluation."
    ),
    over=["histories", "configurations", "crash_points"],
    qtext="all environment scripts, all schedules of limits/checkpoints/evaluations/offsets, a failure at every call",
    why="tests train a mock agent for a few hundred steps on one environment and count calls; combinations of limits, resets, offsets, evaluation and failures are not covered",
    files=["pfrl/experiments/train_agent.py", "pfrl/experiments/evaluator.py", "pfrl/agent.py"],
    mechanism=[("training loop", "train_agent"), ("evaluation scheduling", "Evaluator.evaluate_if_necessary"), ("evaluation mode", "Agent.eval_mode")],
    state=[("t, episode_len", "step and episode counters", "train_agent"), ("prev_eval_t, max_score", "evaluation schedule", "Evaluator")],
    observe_at=["calls on env / agent / hooks / agent.save", "returned history", "scores.txt", "raised exception"],
    technique="exhaustive enumeration of environment scripts, schedules and fault points on the real loop; call log checked against an independent automaton",
    level_note="Exhaustive within step budgets of 5 (quick) / 7 (thorough).",
)

P(
    id="P07",
    title="train_agent_batch keeps every environment's episodes and the step schedule right",
    statement=(
        "For every behaviour of the environments of a VectorEnv (with an evaluation environment independent of the training ones), train_agent_batch and "
        "train_agent_batch_with_evaluation: act on exactly the current observations, let the agent observe per environment its observation, reward, terminal "
        "flag and reset flag (episode limit counted per environment, or needs_reset); reset exactly those environments whose episode ended, never the others, never after the end of "
        "training; never step an ended environment; count one step per environment, call every hook once per counted step, save <t>_checkpoint for every multiple of checkpoint_freq before the end and <t>_finish once at the end; stop at the first "
        "batch step reaching the budget or the success score; evaluate exactly when a multiple of eval_interval was passed since the last evaluation; on a failure save <t>_except, close the environments and let the exception through."
    ),
    over=["histories", "configurations", "crash_points"],
    qtext="all joint scripts of several environments, all schedules, a failure at every call",
    why="tests use vectors of identical environments that end together; per-environment masks and limits, offsets that are no multiple of the vector size and failures are not covered",
    files=["pfrl/experiments/train_agent_batch.py", "pfrl/experiments/evaluator.py"],
    mechanism=[("end masks and episode lengths", "train_agent_batch")],
    state=[("episode_len, episode_idx", "per-environment counters", "train_agent_batch"), ("t", "global step counter", "train_agent_batch")],
    observe_at=["calls on env / agent / hooks / agent.save", "returned history", "scores.txt", "raised exception"],
    technique="exhaustive enumeration of joint environment scripts, schedules and fault points on the real loop; call log checked against an independent automaton",
    level_note="Exhaustive within 1..3 environments and up to 4 (5) batch steps.",
)

P(
    id="P08",
    title="Evaluation reports exactly the evaluated episodes and keeps the best agent",
    statement=(
        "For every environment behaviour and budget, an evaluation (single or vector environment) runs in evaluation mode and restores the previous mode even if it fails; "
        "with n_episodes it reports the returns and lengths of exactly the first n episodes in order of start; with n_steps it reports the episodes that complete within the step "
        "budget (or the partial return of the only, unfinished one); episodes end at a terminal step, needs_reset or the length limit; ended environments are reset and never stepped, the last observation is flagged as reset, and nothing runs beyond the budget. "
        "eval_performance's statistics (count, mean, median, stdev, min, max of returns and lengths) are those of the reported lists. "
        "Evaluator and AsyncEvaluator evaluate once per passed multiple of eval_interval (step offset included), write a header and one scores.txt row (and, with use_tensorboard, one flushed set of scalars) per evaluation with matching agent and environment statistics, call every evaluation hook once, keep max_score as the maximum of all scores and save the 'best' agent exactly when a score is strictly higher than all earlier ones."
    ),
    over=["histories", "configurations", "inputs"],
    qtext="all episode scripts in single and vector environments, all budgets, all increasing step sequences and score sequences for the evaluators",
    why="tests sample a handful of budgets on deterministic environments; unequal episode lengths across vector environments and ties of scores are not covered",
    files=["pfrl/experiments/evaluator.py", "pfrl/agent.py"],
    mechanism=[("episode bookkeeping", "_run_episodes, _batch_run_episodes"), ("schedule and best score", "Evaluator, AsyncEvaluator")],
    state=[("max_score, prev_eval_t", "best score and schedule", "Evaluator / AsyncEvaluator")],
    observe_at=["run_evaluation_episodes", "batch_run_evaluation_episodes", "eval_performance", "scores.txt", "agent.save"],
    technique="exhaustive enumeration of environment scripts, budgets, step sequences and score sequences on the real evaluator against an independent oracle",
    level_note="Exhaustive within 6 steps (single), 8-9 environment steps (vector, 1..4 envs), 9 evaluation opportunities.",
)

P(
    id="P09",
    title="Asynchronous training is correct under every interleaving of its workers",
    statement=(
        "For every interleaving of the worker processes of train_agent_async: every environment step gets its own global step number, consecutive from step_offset + 1; "
        "each hook sees each number exactly once; workers stop after the budget with at most one extra step each; exactly one worker saves <steps>_finish; at most one evaluation is made per passed multiple of eval_interval and none that is due is skipped; "
        "scores.txt has its header once, before all rows, and one row per evaluation; with use_tensorboard every evaluation is written to tensorboard and flushed exactly once before training returns, however training stops; the 'best' agent on disk always has the highest score so far, whichever evaluations overlap; a score reaching successful_score saves 'successful' and stops every worker within one step; an external stop_event does the same; "
        "each worker resets, steps and closes its own environments as in single-process training and shares the declared attributes (an agent made by make_agent starts from the shared parameters); a failing worker is reported by a warning, worker 0 saves <t>_except before exiting, and the other workers still finish."
    ),
    over=["schedules", "histories", "crash_points"],
    qtext="all schedules of 2-3 workers up to a preemption bound, failures of a worker at any call, an external stop or exception event at any point",
    why="tests run whatever schedule the OS picks; lost updates and check-then-act races need a particular preemption",
    files=["pfrl/experiments/train_agent_async.py", "pfrl/experiments/evaluator.py", "pfrl/utils/async_.py", "pfrl/utils/random_seed.py"],
    mechanism=[("shared counters under their locks", "train_loop, AsyncEvaluator"), ("stop/exception events", "train_loop")],
    state=[("counter, episodes_counter", "global counters", "train_agent_async"), ("prev_eval_t, _max_score, wrote_header", "shared evaluator state", "AsyncEvaluator")],
    observe_at=["global step hooks", "agent.save", "scores.txt", "env calls", "warnings"],
    technique="stateless model checking of the real code under a controlled scheduler (all schedules within a preemption bound)",
    level_note="Preemption bound 2 (2 workers) / 1 (3 workers), thorough 3 / 2; processes are modelled by threads that share only what the code shares; two runs with real processes validate the model.",
)

P(
    id="P10",
    title="A vector environment behaves like its environments run one by one",
    statement=(
        "For every sequence of seed, reset (with any mask) and step calls and every scheduling of the workers, SerialVectorEnv and MultiprocessVectorEnv deliver each action, seed and reset to the environment with the same index, "
        "in order and exactly once, return observations, rewards, dones and infos in index order equal to those of the individual environments, leave masked environments untouched (their last observation is returned) and expose their number, spaces and spec. "
        "VectorFrameStack yields for each environment the last k frames of its current episode (padded with its first frame), like the single-environment FrameStack, and observations handed out earlier never change. "
        "close() ends every worker and later calls do not reach the environments."
    ),
    over=["histories", "schedules", "configurations"],
    qtext="all operation sequences up to a depth with every reset mask, every schedule of the worker processes up to a deviation bound",
    why="tests use identical deterministic environments and one or two masks; index mix-ups and aliasing show only with heterogeneous environments and particular masks",
    files=["pfrl/envs/serial_vector_env.py", "pfrl/envs/multiprocess_vector_env.py", "pfrl/wrappers/vector_frame_stack.py", "pfrl/env.py"],
    mechanism=[("pipe protocol", "MultiprocessVectorEnv / worker"), ("per-environment frame queues", "VectorFrameStack")],
    state=[("last_obs", "last observation per environment", "SerialVectorEnv / MultiprocessVectorEnv"), ("frames", "frame queues", "VectorFrameStack")],
    observe_at=["step / reset / seed return values", "calls received by the environments"],
    technique="exhaustive enumeration of operation sequences and worker schedules (controlled scheduler) on the real code against the environments run one by one",
    level_note="Exhaustive for 1..3 environments and 2..3 operations after the first reset; worker schedules within a deviation bound; two runs with real processes validate the process model.",
)

P(
    id="P11",
    title="Environment wrappers transform episodes exactly and respect episode ends",
    statement=(
        "For every behaviour of the wrapped environment (terminal step, needs_reset, both, lives lost or gained at any step) and every sequence of steps and resets: "
        "ContinuingTimeLimit requests a reset at the limit and never reports done by itself; FrameStack returns the last k frames of the current episode; MaxAndSkipEnv sums the rewards and takes the pixel-wise maximum of the last two frames of the current step, stopping at an episode end; "
        "NoopResetEnv and FireResetEnv perform the required actions on reset and return the current observation of a running episode; EpisodicLifeEnv reports done on a lost life and resets for real only after a real end; reward, observation and action transforms (clip, scale, cast, warp, normalize, randomize) map each value exactly and pass everything else through, and Monitor records every episode. "
        "None of them, alone or stacked as make_atari / wrap_deepmind do, ever steps the wrapped environment after its episode has ended."
    ),
    over=["histories", "configurations", "inputs"],
    qtext="all episode scripts up to a number of raw steps, all wrapper parameters in range, every random draw, wrappers alone and stacked",
    why="tests run each wrapper on a mock for one or two scripts; an episode end inside skipped, no-op or fire steps needs specific timing",
    files=["pfrl/wrappers/atari_wrappers.py", "pfrl/wrappers/continuing_time_limit.py", "pfrl/wrappers/cast_observation.py", "pfrl/wrappers/scale_reward.py", "pfrl/wrappers/normalize_action_space.py", "pfrl/wrappers/randomize_action.py", "pfrl/wrappers/monitor.py", "pfrl/wrappers/render.py"],
    mechanism=[("episode-end handling", "step / reset of each wrapper")],
    state=[("_elapsed_steps, frames, lives, needs_real_reset", "per-wrapper episode state", "the wrappers")],
    observe_at=["step / reset return values of the wrapper", "calls received by the wrapped environment"],
    technique="exhaustive enumeration of environment scripts, operation sequences and random draws on the real wrappers against an independent oracle",
    level_note="Exhaustive within 5-7 raw environment steps and the listed parameter ranges.",
)

P(
    id="P12",
    title="Off-policy agents store what they experience and follow their schedule",
    statement=(
        "For every number of environments and every history of steps, terminations and resets, the DQN family, DDPG, TD3 and SAC append to their replay buffer in training mode exactly the transitions they experienced: the observation they acted on, the action they returned for it, the reward and next observation that followed, and whether the state was terminal, each under its own environment, in order, with the episode closed at every done or reset; evaluation appends nothing. "
        "An update is run exactly at the steps that are a multiple of update_interval once the buffer holds replay_start_size experiences, n_times_update times, on replay_batch samples of minibatch_size taken from the buffer at that time; the target networks change exactly at the steps that are a multiple of the target interval, becoming the current parameters (hard) or the exact tau-mixture (soft), TD3 delays its policy updates, and the step and update counters count these events. "
        "Actions are the explorer's decision given the greedy action of the current network for that observation and the current step number."
    ),
    over=["histories", "configurations"],
    qtext="all joint scripts of episode ends over 1..3 environments up to a number of steps, several schedules per agent",
    why="tests train agents to a score threshold or run a handful of steps; an off-by-one in schedules or a transition mixed between environments or episodes still learns",
    files=["pfrl/agents/dqn.py", "pfrl/agents/iqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py", "pfrl/replay_buffer.py", "pfrl/utils/copy_param.py"],
    mechanism=[("transition assembly", "_batch_observe_train of each agent"), ("ReplayUpdater", "pfrl/replay_buffer.py"), ("target sync", "sync_target_network / synchronize_parameters")],
    state=[("batch_last_obs / batch_last_action", "pending halves of transitions", "the agents"), ("t, optim_t, n_updates", "counters", "the agents")],
    observe_at=["replay buffer contents", "optimizer steps", "target parameters", "explorer calls", "agent.t"],
    technique="exhaustive enumeration of joint episode scripts on the real agents (tiny networks, recording buffer and optimizers) against a reference model of the schedule",
    level_note="Exhaustive within 1 environment x 4-6 steps, 2 x 2-3, 3 x 2 and the listed schedules.",
)

P(
    id="P13",
    title="Off-policy updates follow the gradient of the documented loss",
    statement=(
        "For every minibatch of n-step experiences (any length up to n, terminal or not, repeated states, boundary values) and, where supported, every importance weight, one update of DQN, DoubleDQN, AL, PAL, DoublePAL, DPP, CategoricalDQN, CategoricalDoubleDQN, IQN, DDPG, TD3 and SAC changes the parameters by the gradient of that algorithm's documented loss, "
        "with the target computed from the target network (and only there), bootstrapped by gamma to the power of the experience's own length and not at all after a terminal state, and reports as new priorities the absolute TD errors (or losses) of the items in their order. "
        "Loss options (clip_delta, mean or sum accumulation, max_grad_norm, entropy temperature, recurrent episodes of different lengths with stored recurrent states) change the loss exactly as documented; values past a terminal state never influence the update. "
        "batch_experiences produces the discounted n-step reward, the last next state, terminal flag, discount and actions of each experience."
    ),
    over=["inputs", "configurations"],
    qtext="all minibatches of 1..2 experiences over small alphabets of states, actions, reward sequences and terminal flags, every combination of the loss options",
    why="tests check shapes, or that learning reaches a threshold; a wrong discount for truncated n-step experiences or a leaking terminal value still learns",
    files=["pfrl/agents/dqn.py", "pfrl/agents/double_dqn.py", "pfrl/agents/al.py", "pfrl/agents/pal.py", "pfrl/agents/double_pal.py", "pfrl/agents/dpp.py", "pfrl/agents/categorical_dqn.py", "pfrl/agents/categorical_double_dqn.py", "pfrl/agents/iqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py", "pfrl/replay_buffer.py"],
    mechanism=[("targets", "_compute_target_values of each agent"), ("losses", "compute_value_loss / compute_weighted_value_loss / _compute_loss"), ("batching", "batch_experiences / batch_recurrent_experiences")],
    state=[("model, target_model", "network parameters", "the agents")],
    observe_at=["parameters after agent.update", "errors given to replay_buffer.update_errors", "batch_experiences return value"],
    technique="exhaustive enumeration of minibatches and loss options on the real agents against an independent double-precision implementation of the losses",
    level_note="Exhaustive over the listed small alphabets (states, rewards, lengths, terminals, weights); networks are tiny; float32 results are compared within a tolerance.",
)

P(
    id="P14",
    title="PPO and TRPO collect whole rollouts and take exactly the documented steps",
    statement=(
        "For every number of environments and every history of terminations and resets, PPO and TRPO (feed-forward or recurrent) update exactly when the transitions collected since the last update reach update_interval, and each update uses all of them and nothing else: "
        "lambda-returns and advantages are computed within each environment's own episode segment, bootstrapping from the next state unless it is terminal and never crossing an episode end; recurrent sequences start from the recurrent state the agent actually had. "
        "Minibatches have the requested size, every epoch uses each transition at most once (feed-forward: exactly once), and every gradient step is the gradient of the documented loss (clipped ratio, value loss with optional clipping, entropy bonus, standardized advantages, gradient-norm limit). "
        "TRPO moves its policy along the natural gradient with the largest step of the backtracking line search that does not worsen the surrogate objective and keeps the mean KL divergence within max_kl, and otherwise leaves the policy unchanged. "
        "An observation normalizer experiences every collected observation exactly once."
    ),
    over=["histories", "configurations"],
    qtext="all joint scripts of episode ends over 1..3 environments up to a number of steps, several option sets per agent",
    why="tests train to a threshold or compare one fixed episode list; advantages leaking over episode ends or sequences started from a wrong recurrent state still learn",
    files=["pfrl/agents/ppo.py", "pfrl/agents/trpo.py", "pfrl/utils/recurrent.py", "pfrl/utils/conjugate_gradient.py", "pfrl/utils/clip_l2_grad_norm.py"],
    mechanism=[("rollout collection", "_batch_observe_train, _update_if_dataset_is_ready"), ("GAE", "_add_advantage_and_value_target_to_episode"), ("minibatches", "_yield_minibatches, _yield_subset_of_sequences_with_fixed_number_of_items"), ("line search", "TRPO._line_search")],
    state=[("memory, batch_last_episode", "collected segments", "PPO / TRPO"), ("train_recurrent_states", "recurrent states per environment", "PPO / TRPO")],
    observe_at=["parameters after each optimizer step", "batches fed to the model", "n_updates", "obs_normalizer statistics"],
    technique="exhaustive enumeration of joint episode scripts on the real agents against an independent double-precision computation of every step",
    level_note="Exhaustive within 1 environment x 4-6 steps, 2 x 2-4, 3 x 2 and the listed option sets; minibatch order is whatever the code draws and is observed from outside.",
)

P(
    id="P15",
    title="A2C, A3C and REINFORCE credit rewards correctly and update on schedule",
    statement=(
        "For every history of terminations and resets: A2C updates exactly every update_steps steps of all environments, A3C at t_max steps or an episode end, REINFORCE after batchsize terminated episodes (an episode that is reset without terminating is discarded), whatever step number training starts from. "
        "Each action is credited with the discounted rewards that follow it in its own rollout and episode - including the reward it led to directly, each exactly once - plus the value of the last state unless terminal (A2C optionally with generalized advantage estimation; REINFORCE with the plain sum), and the parameters move by the gradient of the documented loss with its coefficients, scaling options and gradient-norm limit. "
        "A3C computes gradients on its local copy, applies them to the shared model as it is at that moment (changed by other workers or not), then copies the shared model back; recurrent models are unrolled from the recurrent state the agent had at the start of the rollout."
    ),
    over=["histories", "schedules", "configurations"],
    qtext="all scripts of episode ends up to a number of steps over 1..3 environments, a foreign update of the shared model at every step, several option sets",
    why="tests train to a threshold; an off-by-one in returns still learns on simple tasks",
    files=["pfrl/agents/a2c.py", "pfrl/agents/a3c.py", "pfrl/agents/reinforce.py", "pfrl/utils/copy_param.py"],
    mechanism=[("returns", "A2C._compute_returns, A3C.update, REINFORCE.accumulate_grad"), ("shared model", "A3C.update / sync_parameters")],
    state=[("t, t_start, past_*", "rollout under construction", "A3C"), ("reward_sequences", "episodes under construction", "REINFORCE")],
    observe_at=["parameters after each optimizer step", "agent.t", "shared and local model"],
    technique="exhaustive enumeration of episode scripts and foreign updates on the real agents against an independent double-precision computation of every step",
    level_note="Exhaustive within 4-7 steps and the listed option sets.",
)

P(
    id="P16",
    title="ACER: retrace targets, replay, trust region and shared models",
    statement=(
        "For every history of terminations and resets: ACER updates once from each rollout (t_max steps or an episode end; unless disabled) and n_times_replay times from a sampled sub-episode of at most t_max stored steps once replay_start_size transitions are stored, whatever step number training starts from. "
        "Stored transitions carry the true state, action, reward, next state, termination flag and the behaviour distribution that chose the action. "
        "Each update moves the shared model by the gradient of the documented loss: retrace targets bootstrapped from the last state unless terminal, truncated importance weights with bias correction, the KL trust region around the average model, entropy and Q terms with their coefficients, normalization and gradient-norm limit; recurrent models are unrolled from the state they had. "
        "Afterwards the local model equals the shared one (including changes by other workers) and the average model moved towards it by 1 - trust_region_alpha, and nothing else changes any of them."
    ),
    over=["histories", "schedules", "configurations"],
    qtext="all scripts of episode ends up to a number of steps, a foreign update of the shared model at every step, several option sets, discrete/continuous and feed-forward/recurrent models",
    why="tests check some loss formulas on fixed inputs and train to a threshold; a target leaking over an episode end or a wrong behaviour distribution still learns",
    files=["pfrl/agents/acer.py", "pfrl/utils/copy_param.py", "pfrl/action_value.py", "pfrl/replay_buffers/episodic.py"],
    mechanism=[("loss", "ACER.compute_loss, compute_policy_gradient_loss, compute_loss_with_kl_constraint"), ("replay", "ACER.update_from_replay"), ("shared models", "ACER.sync_parameters")],
    state=[("past_*", "rollout under construction", "ACER"), ("shared_average_model", "average policy", "ACER")],
    observe_at=["parameters after each optimizer step", "sampled episodes", "agent.t", "shared, local and average model"],
    technique="exhaustive enumeration of episode scripts and foreign updates on the real agent against an independent double-precision computation of every step",
    level_note="Exhaustive within 3-6 steps and the listed option sets; the sub-episode drawn from the buffer is observed (its distribution is P02's subject).",
)

P(
    id="P17",
    title="Evaluation never interferes with training and uses only the parameters",
    statement=(
        "For every agent, every training history and every evaluation (agent.eval_mode()) run between two training steps - finished, cut off by a reset or aborted by an exception - training goes on exactly as if the evaluation had not happened (random numbers aside): same actions, parameters, network buffers, optimizer state, recurrent states, step counters and replay contents, and every submodule is in the training/evaluation mode it was in before, also after acting and updating in training mode. "
        "The actions of an evaluation episode are a function of the current parameters and of the observations of that episode only (recurrent states start fresh), computed with the networks in evaluation mode and without exploration: the greedy action of value-based agents, the policy's action (most probable one with act_deterministically) otherwise."
    ),
    over=["histories", "configurations", "schedules"],
    qtext="all training scripts of episode ends up to a number of steps, evaluations of several kinds at every position, every agent class with feed-forward/recurrent, discrete/continuous models and frozen submodules",
    why="tests evaluate before or after training and check scores, never that the training trajectory is unaffected",
    files=["pfrl/agent.py", "pfrl/utils/contexts.py", "pfrl/agents/*.py"],
    mechanism=[("mode switch", "Agent.eval_mode, utils.contexts.evaluating"), ("evaluation acting", "_batch_act_eval / _act_eval / _batch_observe_eval"), ("recurrent state", "test_recurrent_states vs train_recurrent_states")],
    state=[("training", "agent mode", "Agent"), ("train_recurrent_states, test_recurrent_states", "recurrent states", "agents")],
    observe_at=["actions in training and evaluation", "parameters, buffers, optimizer state", "training flag of every submodule"],
    technique="exhaustive enumeration of training scripts x evaluation positions on the real agents; noninterference by bit-exact comparison of runs, fresh-agent and direct greedy oracles for evaluation actions",
    level_note="Exhaustive within 3-5 training steps, three kinds of evaluation at each boundary and at all of them.",
)

P(
    id="P18",
    title="Saving and loading agents reproduces them; snapshots resume training",
    statement=(
        "For every agent and every training history, an agent loaded from a save made at an episode and update boundary - into a fresh or an already used agent of the same configuration, from a new directory or one that held an earlier save - has the saved parameters, network buffers, target networks, observation normalizer and optimizer state, evaluates identically, and (given the replay buffer and step number) continues training exactly like the saved agent on any further history; for asynchronous agents shared and local model agree after loading and ACER's average model restarts from it. "
        "A DQN-family snapshot also carries the replay buffer and all counters. Saving changes nothing in the agent, and the loaded agent shares no storage with the saved one."
    ),
    over=["histories", "configurations"],
    qtext="all scripts of episode ends before the save and after the load up to a number of steps, every agent class, several optimizers",
    why="tests compare a few weights after one save; a network or cache missing from the saved attributes shows only in continued training",
    files=["pfrl/agent.py", "pfrl/agents/*.py", "pfrl/nn/empirical_normalization.py", "pfrl/optimizers/rmsprop_eps_inside_sqrt.py", "pfrl/replay_buffers/*.py"],
    mechanism=[("saved attributes", "AttributeSavingMixin.save/load, saved_attributes"), ("snapshots", "DQN.save_snapshot / load_snapshot"), ("async load", "A3C.load, ACER.load")],
    state=[("saved_attributes", "what is stored", "each agent")],
    observe_at=["parameters, buffers, optimizer state after load and after each continued step", "evaluation actions", "snapshot counters"],
    technique="exhaustive enumeration of histories before and after a save/load on the real agents, bit-exact comparison with the uninterrupted run",
    level_note="Exhaustive within 2-4 steps before and 2-3 after; A2C's continued training is not compared (its last rollout is always pending).",
)

P(
    id="P19",
    title="Recurrent computation treats every sequence of a batch on its own",
    statement=(
        "For every structure of recurrent modules (GRU, LSTM, RNN, nested RecurrentSequential and RecurrentBranched, multi-head outputs, tuple inputs), every batch of sequences of any lengths and any mixture of present and absent initial states, packed evaluation and step-by-step evaluation give each sequence the outputs and final recurrent state it gets when evaluated alone. "
        "Masking, picking, detaching, concatenating and converting recurrent states act on exactly the chosen sequences (a masked one restarts from the zero state), keep the others bit-identical, keep gradients unless detached, never change their argument, and pass an absent state (None) through."
    ),
    over=["inputs", "configurations"],
    qtext="all structures, all batches of sequence lengths, all patterns of present initial states and all masked or picked subsets",
    why="tests use one or two structures and lengths; swapped states of two recurrent layers or a mask on the wrong axis only shows for particular batches",
    files=["pfrl/utils/recurrent.py", "pfrl/nn/recurrent_sequential.py", "pfrl/nn/recurrent_branched.py", "pfrl/nn/branched.py", "pfrl/nn/concat_obs_and_action.py"],
    mechanism=[("packing", "pack_and_forward, pack_one_step_batch_as_sequences, flatten_sequences_time_first"), ("states", "mask_recurrent_state_at, get_recurrent_state_at, concatenate_recurrent_states"), ("composition", "RecurrentSequential.forward, RecurrentBranched.forward")],
    state=[("recurrent state", "nested tuple of arrays, sequences on axis 1", "pfrl/utils/recurrent.py")],
    observe_at=["outputs and states of pack_and_forward / one_step_forward", "results of the state functions"],
    technique="exhaustive enumeration of structures, batches and state patterns on the real modules against a per-sequence numpy reference",
    level_note="Exhaustive over batches of up to 4 sequences of up to 4 steps; float64, tolerance 1e-9.",
)

P(
    id="P20",
    title="Explorers select actions with exactly the announced probabilities",
    statement=(
        "For every configuration, step number and history of selections: epsilon-greedy explorers call exactly one of the random and the greedy action function, once, and return its result; they explore with probability exactly epsilon(t), where epsilon is constant, start + (end - start) * t / decay_steps up to decay_steps and end afterwards (decay_steps=0 included), or max(start * decay**t, end) - never at epsilon 0, always at epsilon 1, independently of earlier selections. "
        "Boltzmann exploration selects each action with its softmax(q / T) probability. AdditiveGaussian returns the greedy action plus scale-times-normal noise, clipped to the given bounds. AdditiveOU adds an Ornstein-Uhlenbeck process started from its stationary distribution (or from mu) and advanced once per selection. "
        "No explorer modifies the greedy action or an action it returned before."
    ),
    over=["inputs", "histories", "configurations"],
    qtext="all step numbers around the decay, all outcomes of the random draws, all small q-value vectors, noise patterns and trajectories",
    why="tests compare frequencies statistically or one decay at few steps; a slightly wrong probability, bound or noise scale passes them",
    files=["pfrl/explorers/*.py", "pfrl/explorer.py"],
    mechanism=[("epsilon schedules", "compute_epsilon, select_action_epsilon_greedily"), ("softmax", "Boltzmann.select_action"), ("noise", "AdditiveGaussian.select_action, AdditiveOU.evolve")],
    state=[("ou_state", "state of the noise process", "AdditiveOU")],
    observe_at=["select_action return values and calls of the action functions"],
    technique="exhaustive enumeration of all outcomes of the random draws with exact probabilities, over all configurations and histories within bounds",
    level_note="Probabilities resolved to 1/80 for inverse-cdf draws; normal draws represented by {-1,0,1}.",
)

P(
    id="P21",
    title="Action values and policy heads compute what they denote, row by row",
    statement=(
        "For every batch of Q-values, return distributions, quantiles or quadratic forms: greedy_actions attain the maximum of Q over the actions of their own row (for a bounded quadratic value: mu clipped into the bounds), max is the value of the greedy action, evaluate_actions and compute_(double_)advantage give exactly the values of the given actions, compute_expectation the softmax-weighted value, the distribution/quantile variants the rows of the given or greedy actions; gradients flow to exactly the selected entries, and indexing by slices or index lists commutes with all of it. "
        "FCQuadraticStateQFunction yields positive definite forms and greedy actions inside the action space. "
        "Policy heads return distributions with the documented mean, variance, log-probabilities, entropy and event shape (spherical, diagonal, fixed, deterministic, softmax); mode_of_distribution is a most probable action of every supported, also nested or transformed, distribution; tanh bounding stays within its bounds."
    ),
    over=["inputs", "configurations"],
    qtext="all small batches over a few values (ties included), all actions, all index forms, all head configurations",
    why="tests use one random batch per class; row mix-ups, wrong ties at bounds or variance/scale confusions need particular values",
    files=["pfrl/action_value.py", "pfrl/q_functions/state_q_functions.py", "pfrl/policies/*.py", "pfrl/distributions/delta.py", "pfrl/functions/*.py", "pfrl/utils/mode_of_distribution.py", "pfrl/nn/bound_by_tanh.py"],
    mechanism=[("action values", "DiscreteActionValue, DistributionalDiscreteActionValue, QuantileDiscreteActionValue, QuadraticActionValue"), ("heads", "GaussianHeadWith*, SoftmaxCategoricalHead, DeterministicHead"), ("mode", "mode_of_distribution")],
    observe_at=["public attributes and methods of the action values", "the distributions returned by the heads"],
    technique="exhaustive enumeration of all small inputs and configurations on the real classes against direct evaluation",
    level_note="Bounded input alphabet (3-5 values per entry); float32 tolerance 1e-5.",
)

P(
    id="P22",
    title="Actor-learner training loses, mixes and corrupts nothing under any schedule",
    statement=(
        "For every interleaving of actors, poller and learner of DQN.setup_actor_learner_training: every transition an actor sends is appended to the replay buffer once, in order and under its own environment id, all of them before its episode end is acknowledged, and episodes are closed at exactly the actors' episode ends; evaluation-mode actors send nothing; the replay buffer is never accessed by two threads at once and never sampled without enough data. "
        "The learner starts as soon as replay_start_size transitions are stored and reaches n_updates if given; its counters, hooks, target updates and n_updates limit follow its number of updates; the shared model and the update counter are refreshed exactly every actor_update_interval updates and actors act with the shared model. "
        "A save requested by an actor stores, and a load replaces, the models as they are between two updates; every request is answered, also after the learner has failed or data could not be stored (which sets exception_event) and after another actor has closed its pipe (which does not), so no actor waits forever."
    ),
    over=["schedules", "histories", "crash_points"],
    qtext="all schedules within a delay bound of 1-3 actors, poller, learner and main thread, over short scripts, requests and a failing learner",
    why="tests train with whatever schedule the OS picks and never preempt between two accesses of the replay buffer or inside an update",
    files=["pfrl/agents/dqn.py", "pfrl/agents/state_q_function_actor.py", "pfrl/utils/stoppable_thread.py"],
    mechanism=[("locks", "_learner_loop, _poll_pipe, DQN.update"), ("pipes", "StateQFunctionActor._send_to_learner, _poller_loop"), ("shared model", "_learner_loop, update_counter")],
    state=[("replay_buffer", "shared between poller and learner", "DQN"), ("shared_model, update_counter", "shared with actors", "DQN")],
    observe_at=["replay buffer operations", "agent.save/load as called by the poller", "hooks", "shared model", "exception_event", "termination"],
    technique="stateless model checking of the real code under a controlled scheduler (all schedules within a delay bound)",
    level_note="Delay bound 2 (1 actor) / 1 (2 actors), thorough 2; actor processes are modelled by threads.",
)

P(
    id="P23",
    title="The provided networks compute the documented functions",
    statement=(
        "For every configuration and input batch, the value and the parameter gradients are those of the documented architecture, each row on its own: MLP and MLPBN (hidden layers with the given nonlinearity, linear output, batch normalization where requested), the state and state-action Q-functions built from them (actions concatenated at the input, or after the first layer without normalization in the late-action variants), SmallAtariCNN and LargeAtariCNN, DuelingDQN (V + A - mean A) and its distributional variant (the same per atom, softmax over atoms, evenly spaced z-values), implicit quantile networks (psi(x) times phi(cos(i pi tau))), Branched, Lambda and ConcatObsAndAction. "
        "FactorizedNoisyLinear computes (mu + sigma f(eps_y) f(eps_x)^T) x + mu_b + sigma_b f(eps_y), f(e) = sign(e) sqrt|e|, with one fresh noise sample per call, and to_factorized_noisy converts exactly the linear layers of any module tree. Initial weights have the documented scales (LeCun normal, last_wscale, sigma_scale), biases the documented values."
    ),
    over=["inputs", "configurations"],
    qtext="all configurations of sizes, depths, nonlinearities and normalizations within bounds, several batches, all noise patterns over a small alphabet, all module trees up to a size",
    why="tests check shapes or one configuration; a normalization over the wrong axis, a layer skipped for one depth or a wrong noise factor keeps all shapes",
    files=["pfrl/nn/*.py", "pfrl/q_functions/*.py", "pfrl/initializers/*.py", "pfrl/agents/iqn.py"],
    mechanism=[("feed-forward networks", "MLP, MLPBN, FC*QFunction"), ("dueling", "DuelingDQN.forward, DistributionalDuelingDQN.forward"), ("noise", "FactorizedNoisyLinear, to_factorized_noisy"), ("quantile embedding", "cosine_basis_functions, ImplicitQuantileQFunction")],
    observe_at=["outputs of forward", "gradients of the parameters", "state dict"],
    technique="exhaustive enumeration of configurations, noise patterns and module trees on the real modules against a functional re-evaluation",
    level_note="Bounded sizes (1-3, thorough 4) and depths (0-3, thorough 4); batch normalization itself is torch's; float32 tolerance 1e-4.",
)

P(
    id="P24",
    title="Statistics, parameter copies, optimizers and tools are exact in every history",
    statement=(
        "For every sequence of batches, loads, copies and soft copies, EmpiricalNormalization normalizes with the mean and variance of exactly the values it has learned (whole batches, until the count reaches `until`), inverse undoes it, and outputs reflect the current statistics. copy_param, soft_copy_param and synchronize_parameters give target = (1-tau) target + tau source for parameters and float buffers (other buffers are copied), copy_grad the source's gradients (None included), without aliasing or touching the source. "
        "RMSpropEpsInsideSqrt follows RMSprop with eps inside the root for every configuration; clip_l2_grad_norm_ returns the total norm and scales only when it exceeds the maximum; conjugate_gradient solves A x = b. evaluating() restores the mode of every submodule, also after exceptions; batch_states applies phi once per state in order; set_random_seed determines all later draws of random, numpy and torch; LinearInterpolationHook interpolates; reward filters and env modifiers (action repetition, time limit, filters) act as named and never step an ended episode; run_async runs every process and warns of each abnormal exit; ask_yes_no asks until it is answered, and a replay buffer is saved as <t><suffix>.replay.pkl exactly after a yes."
    ),
    over=["histories", "inputs", "configurations"],
    qtext="all operation sequences up to a depth, all option combinations with short gradient sequences, all small linear systems, all episode scripts of a few steps",
    why="tests run each tool on one or two inputs; stale caches and aliasing need a particular sequence of operations",
    files=["pfrl/nn/empirical_normalization.py", "pfrl/utils/*.py", "pfrl/optimizers/rmsprop_eps_inside_sqrt.py", "pfrl/experiments/hooks.py"],
    mechanism=[("running moments", "EmpiricalNormalization.experience, _std_inverse"), ("copies", "copy_param, soft_copy_param, copy_grad"), ("optimizer", "RMSpropEpsInsideSqrt.step"), ("solver", "conjugate_gradient")],
    state=[("_mean, _var, count, cached inverse deviation", "learned statistics", "EmpiricalNormalization"), ("square_avg, grad_avg, momentum_buffer", "optimizer state", "RMSpropEpsInsideSqrt")],
    observe_at=["outputs of the functions", "state dicts"],
    technique="exhaustive enumeration of operation sequences and configurations on the real code against double-precision references",
    level_note="Sequences of 3 (thorough 4) operations; float32 tolerance 1e-4.",
)

P(
    id="P25",
    title="Model downloads and output directories survive kills, failures and races",
    statement=(
        "Whatever download requests were made before, at whatever point a process was killed or a transfer failed, and however concurrent callers interleave: a path returned by download_model holds the complete model asked for; a model that was delivered once is afterwards reported as cached and never fetched again, nor fetched twice by concurrent callers; is_cached is true only if nothing was fetched; a failed transfer raises and leaves no partial files. "
        "prepare_output_dir creates the directory and records arguments, command, environment, git information and one more start time; with make_backup an existing directory is first copied completely, so that a kill at any point loses nothing written by earlier runs, and other files are never touched. Experiment ids are deterministic and differ whenever commit, diff, arguments or prefix differ."
    ),
    over=["crash_points", "schedules", "histories", "fault_sequences"],
    qtext="all short request histories x every kill point, torn write and failing transfer; all schedules of concurrent callers within a preemption bound; all short sequences of preparations x every kill point",
    why="tests download real models (needing the network) or prepare one directory; kill points and races are not reachable by the suite",
    files=["pfrl/utils/pretrained_models.py", "pfrl/experiments/prepare_output_dir.py"],
    mechanism=[("cache", "download_and_store_model, cached_download"), ("locks", "filelock.FileLock"), ("backup", "prepare_output_dir")],
    state=[("_models_root tree", "downloaded and extracted files", "file system"), ("output directory", "records and backups", "file system")],
    observe_at=["returned path and its contents, is_cached", "transfers made", "file tree"],
    technique="exhaustive crash-point enumeration on the real code over a recorded file system and stateless model checking of concurrent callers",
    level_note="Histories of 1-2 (thorough 3) requests, preemption bound 2 (3); transfers are served by a stand-in; power failures are not modelled.",
)

P(
    id="P26",
    title="Objects never influence each other, and seeded runs repeat exactly",
    statement=(
        "Agents, replay buffers, collections, explorers, normalizers, optimizers, wrappers and environments keep all their state to themselves: in every interleaving of the calls made to two objects (of the same or of different kinds, each with its own random numbers), every returned value, statistic and parameter is that of the object used alone. "
        "The same seeds give the same run, whatever ran before in the process: training functions leave nothing behind (hooks, evaluators, step counters, modes) that a later run could feel. Agents, explorers and normalizers do not modify the observations, rewards and actions they are given, and no call changes global settings (gradient mode, default dtype, numpy error state, working directory)."
    ),
    over=["histories", "schedules", "inputs"],
    qtext="all interleavings within a preemption bound of two programs of 4-7 calls, for every agent class and component, as twins and next to another kind; all sequences of three training runs with different options",
    why="tests use one object at a time; state shared through classes, default arguments, caches or modules only shows when two objects are alive",
    files=["pfrl/agents/*.py", "pfrl/replay_buffers/*.py", "pfrl/collections/*.py", "pfrl/explorers/*.py", "pfrl/wrappers/*.py", "pfrl/experiments/*.py", "pfrl/nn/*.py"],
    mechanism=[("instance state", "constructors and default arguments"), ("training loops", "train_agent*, Evaluator"), ("random numbers", "global generators of random, numpy and torch")],
    observe_at=["returned values", "statistics", "parameters and optimizer states", "arguments after each call", "files written by training runs"],
    technique="exhaustive enumeration of interleavings of two call sequences on the real code against solo runs",
    level_note="1-3 preemptions (thorough up to 4 or all); programs of 2-3 environment steps.",
)

P(
    id="P27",
    title="The toy environment ABC is exactly the MDP it documents",
    statement=(
        "For every size, option combination and sequence of resets and actions, ABC starts each episode in state 0; on state n only action n leads to state n+1, completing all of them gives reward 1 (the only reward) and ends the episode (episodic) or returns to state 0; a wrong action ends the episode or leaves the state unchanged. Observations are fresh one-hot float32 vectors of length size + 2; in partially observable settings they are shifted by one position in whole episodes only: with probability 1/2 each, or in every other episode, starting with a shifted one, when deterministic. "
        "Continuous actions are clipped to [-1, 1] and used as logits: the inner action is the most probable one (deterministic) or has its softmax probability."
    ),
    over=["histories", "inputs", "configurations"],
    qtext="all configurations of sizes 1-3 (4), all sequences of up to 5 (7) resets and actions, all random outcomes",
    why="tests check that agents learn on it, not its dynamics; the agent tests of the library stand on it",
    files=["pfrl/envs/abc.py"],
    mechanism=[("dynamics", "ABC.step"), ("shifts", "ABC.reset, ABC.observe")],
    state=[("_state, _offset", "current state, shift of the episode", "ABC")],
    observe_at=["reset(), step() results"],
    technique="exhaustive enumeration of action sequences and random outcomes on the real code, exact distributions against a reference MDP",
    level_note="Sizes 1-3 (thorough 4), sequences of 5 (7) operations.",
)

P(
    id="P28",
    title="Preprocessing (phi, batch_states) is applied exactly once everywhere",
    statement=(
        "For every agent and every history, an agent with preprocessing function phi that receives the observations o behaves exactly (bit for bit, given the same random numbers) like the same agent without preprocessing that receives phi(o): same training and evaluation actions, parameters, network buffers, optimizer states and statistics. "
        "phi is applied to observations only, never twice to the same value and never to preprocessed data; replay buffers keep the raw observations; where an agent takes a batch_states function, all observations pass through it. Observations may be arbitrary objects as long as phi turns them into arrays."
    ),
    over=["histories", "inputs"],
    qtext="all agents, single and batch interface, all scripts of {continue, done, reset} of 3-4 steps (2 environments x 2) with evaluations in between, three kinds of preprocessing",
    why="the tests use the identity or one network input conversion; a forgotten or repeated phi in one code path (bootstrapping, evaluation, replay) only shows for a non-identity phi on that path",
    files=["pfrl/agents/*.py", "pfrl/replay_buffer.py", "pfrl/utils/batch_states.py"],
    mechanism=[("conversion", "batch_states(obs, device, phi) in act, observe and update paths"), ("batching", "batch_experiences, batch_recurrent_experiences")],
    observe_at=["returned actions", "parameters after every step", "statistics", "arguments of phi and batch_states"],
    technique="exhaustive enumeration of histories on the real code, comparing two instances bit for bit",
    level_note="3-4 steps (thorough 6), 2 environments x 2 (3) steps.",
)
