"""P18  saving and loading agents.

Every agent is trained over every script of episode ends, saved at an episode
(and update) boundary, loaded into a fresh and into a used agent of the same
configuration, and both are continued over every continuation script with the
same random numbers: parameters, buffers, optimizer states, evaluation actions
and the continued training have to agree bit for bit. DQN-family agents are
also resumed from a snapshot, with nothing carried over by hand.
"""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import zoo as Z
from mc.props.p17 import evaluate

RULE = "one case per (agent, optimizer, script before the save, target of the load, continuation); non-trivial outcomes = distinct final parameters"
BOUNDS = {
    "quick": "28 agents, optimizers Adam / momentum / RMSpropEpsInsideSqrt / SGD; 2-4 steps before the save and 2 after with {continue, done, reset}; saves into a new directory or over an earlier save; load into a fresh or a used agent",
    "thorough": "4 steps before, 3 after, all optimizers",
}
ASSUMPTIONS = [
    "continuation is compared from a boundary: episode over, no partial rollout or accumulated gradient; the replay buffer and the step counter are handed over (a snapshot carries them itself)",
    "not carried by save(): explorer state, importance-weight annealing, delayed-update counters, ACER's average model (restarts from the loaded model); configurations are chosen so that they do not matter",
]
OUT = [(False, False), (True, False), (False, True)]
NOT_SAVED = ("shared_average_model",)


def fp(z):
    return [x for x in z.fingerprint() if not x[0].startswith(NOT_SAVED)]


def drive(z, script, uid, single=True):
    """One environment; returns (trace, next uid)."""
    ag = z.agent
    cur = uid
    tr = []
    for d, r in script:
        a = ag.act(Z.obs_of(cur))
        nxt = cur + 1
        ag.observe(Z.obs_of(nxt), ((nxt * 5) % 7 - 3) / 2.0, d, r)
        tr.append((np.asarray(a).tolist(), fp(z)))
        cur = nxt + 10 if d or r else nxt
    return tr, cur


def unit(rec, kind, opt, T, C, snap, part=0, parts=1):
    tmp = tempfile.mkdtemp(prefix="mc_P18_")
    try:
        for k, pre in enumerate(itertools.product(OUT, repeat=T - 1)):
            if k % parts != part:
                continue
            script = pre + ((True, False),)
            for used in (False, True):
                d = os.path.join(tmp, "agent")
                shutil.rmtree(d, ignore_errors=True)
                rec.begin({"agent": kind, "opt": opt, "script": script, "used": used, "snapshot": snap})
                Z.rng_seed(5)
                a = Z.Zoo(kind, opt=opt, exact=True)
                if used:
                    # an earlier save into the same directory
                    drive(a, [(True, False)] * 2, 900)
                    (a.agent.save_snapshot if snap else a.agent.save)(d)
                tr, uid = drive(a, script, 1)
                before = fp(a)
                (a.agent.save_snapshot if snap else a.agent.save)(d)
                rec.check(fp(a) == before, "saving changes the agent")
                b = Z.Zoo(kind, seed=77, opt=opt, exact=True)
                if used:
                    drive(b, [(False, False), (True, False)] * 2, 500)
                (b.agent.load_snapshot if snap else b.agent.load)(d)
                rec.step()
                df = Z.diff(fp(b), before)
                rec.check(not df, "loaded agent differs from the saved one in %s" % df[:4])
                rec.check(fp(a) == before, "loading changes the saved agent")
                ga = [getattr(a.agent, x).param_groups for x in a.agent.saved_attributes if hasattr(getattr(a.agent, x), "param_groups")]
                gb = [getattr(b.agent, x).param_groups for x in a.agent.saved_attributes if hasattr(getattr(b.agent, x), "param_groups")]
                f = lambda gs: [[{k: v for k, v in g.items() if k != "params"} for g in og] for og in gs]
                rec.eq(f(ga), f(gb), "optimizer settings after load")
                for _, m in b.modules():
                    for p in m.parameters():
                        rec.check(not any(p is q or p.data_ptr() == q.data_ptr() for _, n in a.modules() for q in n.parameters()), "loaded agent shares parameters with the saved one")
                if hasattr(b.agent, "shared_model"):
                    rec.check([v.tolist() for v in b.agent.shared_model.state_dict().values()] == [v.tolist() for v in b.agent.model.state_dict().values()], "shared model and local model differ after load")
                if hasattr(b.agent, "shared_average_model"):
                    rec.check(
                        [v.tolist() for v in b.agent.shared_average_model.state_dict().values()] == [v.tolist() for v in b.agent.model.state_dict().values()],
                        "the average model is not taken from the loaded model",
                    )
                s = Z.rng_get()
                ea = evaluate(a, "done", 1)
                Z.rng_set(s)
                eb = evaluate(b, "done", 1)
                rec.eq(eb, ea, "evaluation actions after load")
                rec.state((kind, opt, script, used, snap))
                if kind in ("reinforce", "rreinforce") and sum(1 for x, _ in script if x) % 2:
                    continue
                if kind == "a2c" or T % 2 and kind not in Z.OFF:
                    continue
                for cont in itertools.product(OUT, repeat=C):
                    rec.begin({"agent": kind, "opt": opt, "script": script, "used": used, "snapshot": snap, "continue": cont})
                    x = copy.deepcopy(a) if kind not in Z.SINGLE else None
                    if x is None:
                        # graphs and shared memory do not survive a deep copy: repeat the history
                        Z.rng_seed(5)
                        x = Z.Zoo(kind, opt=opt, exact=True)
                        if used:
                            drive(x, [(True, False)] * 2, 900)
                        drive(x, script, 1)
                    y = Z.Zoo(kind, seed=78, opt=opt, exact=True)
                    if used:
                        drive(y, [(False, False), (True, False)] * 2, 500)
                    if not snap:
                        if a.buf is not None:
                            y.buf = y.agent.replay_buffer = copy.deepcopy(x.buf)
                            if hasattr(y.agent, "replay_updater"):
                                y.agent.replay_updater.replay_buffer = y.buf
                        if hasattr(x.agent, "t"):
                            y.agent.t = x.agent.t
                    (y.agent.load_snapshot if snap else y.agent.load)(d)
                    if snap:
                        rec.eq((y.agent.t, len(y.agent.replay_buffer), dict(y.agent.get_statistics())["n_updates"], y.agent.cumulative_steps), (x.agent.t, len(x.agent.replay_buffer), dict(x.agent.get_statistics())["n_updates"], x.agent.cumulative_steps), "counters of the snapshot")
                    Z.rng_seed(9)
                    gx, _ = drive(x, cont, uid)
                    Z.rng_seed(9)
                    gy, _ = drive(y, cont, uid)
                    rec.step()
                    for t, (p, q) in enumerate(zip(gx, gy)):
                        rec.eq(q[0], p[0], "action %d after load" % t)
                        df = Z.diff(p[1], q[1])
                        rec.check(not df, "training continued from the saved agent differs after step %d in %s" % (t, df[:3]))
                    rec.outcome(hash(tuple(v for _, v in gy[-1][1])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SNAP = ["dqn", "ddqn", "al", "pal", "dpal", "dpp", "cat", "catd", "iqn", "rdqn", "riqn"]


def unit_tree(rec, kinds):
    """AttributeSavingMixin: every small tree of saved attributes (plain and
    wrapped modules, optimizers, absent ones, nested and shared objects)."""
    import torch

    from pfrl.agent import AttributeSavingMixin

    class Node(AttributeSavingMixin):
        saved_attributes = ()

        def __init__(self, attrs):
            self.saved_attributes = tuple(attrs)
            for k, v in attrs.items():
                setattr(self, k, v)

    count = [0]

    def make(kind, shared):
        count[0] += 1
        torch.manual_seed(count[0])
        m = torch.nn.Linear(1, 1)
        if kind == "none":
            return None
        if kind == "dp":
            return torch.nn.DataParallel(m)
        if kind == "opt":
            o = torch.optim.Adam(m.parameters(), lr=0.1)
            m(torch.full((1, 1), float(count[0]))).sum().backward()
            o.step()
            return o
        if kind == "shared":
            if not shared:
                shared.append(Node({"m": m}))
            return shared[0]
        return m

    def build(shape):
        shared = []

        def node(sh):
            return Node({"abc"[i]: node(x) if isinstance(x, tuple) else make(x, shared) for i, x in enumerate(sh)})

        return node(shape)

    def leaves(n, path=()):
        for k in n.saved_attributes:
            v = getattr(n, k)
            if isinstance(v, Node):
                yield from leaves(v, path + (k,))
            elif v is not None:
                v = getattr(v, "module", v)
                sd = v.state_dict()
                if "state" in sd:
                    yield path + (k,), {(i, j): torch.as_tensor(y).clone() for i, x in sd["state"].items() for j, y in x.items()}
                else:
                    yield path + (k,), {i: y.clone() for i, y in sd.items()}

    inner = list(itertools.product(kinds, repeat=2))
    shapes = [s + (i,) for s in itertools.product(kinds, repeat=1) for i in inner]
    shapes += [(i, j) for i in inner[:: max(1, len(inner) // 6)] for j in inner] + [(i, (j,)) for i in kinds for j in inner]
    d = tempfile.mkdtemp(dir=rec.scratch)
    for n, shape in enumerate(shapes):
        rec.begin({"saved attributes": shape})
        a = build(shape)
        want = dict(leaves(a))
        name = os.path.join(d, str(n), "x")
        a.save(name)
        # loading into other values, wrapped and unwrapped modules exchanged
        swap = lambda sh: tuple(swap(x) if isinstance(x, tuple) else {"dp": "mod", "mod": "dp"}.get(x, x) for x in sh)
        for target in (shape, swap(shape)):
            b = build(target)
            keep = {k: id(v) for k, v in vars(b).items()}
            b.load(name)
            got = dict(leaves(b))
            rec.eq(sorted(got), sorted(want), "attributes")
            for k in want:
                rec.check(set(got[k]) == set(want[k]) and all(torch.equal(got[k][x], want[k][x]) for x in want[k]), "attribute %s differs after loading" % ".".join(k))
            rec.eq({k: id(v) for k, v in vars(b).items()}, keep, "identity of the loaded attributes")
        after = dict(leaves(a))
        rec.check(all(torch.equal(after[k][x], want[k][x]) for k in want for x in want[k]), "saving changed the object")
        rec.step()
        rec.state(shape)
        rec.outcome(tuple(sorted(want)))
        shutil.rmtree(os.path.join(d, str(n)), ignore_errors=True)


def units(tier):
    T = tier == "thorough"
    us = [("tree", unit_tree, ("mod", "dp", "opt", "none", "shared"))]
    opts = ["adam", "momentum", "rms", "sgd"]
    for i, kind in enumerate(Z.KINDS):
        shared = kind in Z.SINGLE and not kind.endswith("reinforce")
        os_ = ["sgd"] if shared else ["adam", opts[1 + i % 3]] if not T else opts
        for o in os_:
            us.append(("%s-%s" % (kind, o), unit, kind, o, 4 if T else 3 if kind in Z.OFF and o == "adam" else 2 if kind not in Z.OFF and o != "adam" and not shared else 4 if kind not in Z.OFF else 2, 3 if T else 2, False))
        if kind in SNAP:
            us.append(("%s-snap" % kind, unit, kind, "adam", 3 if not T else 4, 2, True))
    return us
