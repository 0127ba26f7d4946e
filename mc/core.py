"""Core of the explorer: case recorder, choice-tree enumeration, parallel
runner, evidence and replay files.

Vocabulary
  unit       an independent, deterministic slice of a property's bounded space
             (one process each); a unit enumerates many cases
  case       one execution of the real code (an operation sequence, schedule,
             crash point, environment script ...)
  state      canonical form of an observed implementation state (deduplicated)
  transition one step of the real code whose result was compared with the
             reference model / on which the invariant was evaluated
"""
import contextlib
import hashlib
import importlib
import io
import itertools
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class PathPruned(Exception):
    """Raised to abandon an execution that is outside the stated bound."""


def _h(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Recorder(object):
    """Per-unit bookkeeping."""

    def __init__(self, prop, unit, known, beat=None):
        self.prop = prop
        self.unit = unit
        self.known_keys = known
        self.cases = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.current = None
        self.known_hit = {}
        self.known_hit_keys = set()
        self.notes = {}
        self._beat = beat
        self._last = 0.0
        self._scratch = None

    # ---- scratch directory, created by the parent and removed by it
    @property
    def scratch(self):
        return self._scratch

    def begin(self, desc):
        self.cases += 1
        self.current = desc
        if len(self.samples) < 2:
            self.samples.append(_short(desc))
        self.beat()

    def beat(self):
        if self._beat:
            now = time.time()
            if now - self._last > 1.0:
                self._last = now
                with open(self._beat, "w") as f:
                    f.write(json.dumps({"t": now, "case": _short(self.current, 4000)}))

    def step(self, n=1):
        self.transitions += n

    def state(self, obj):
        self.states.add(_h(obj))

    def outcome(self, obj):
        self.outcomes.add(_h(obj))

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg.format(*args) if args else msg)
        return True

    def eq(self, got, want, what):
        if got != want:
            raise Violation(
                "%s: got %s, expected %s" % (what, _short(got, 600), _short(want, 600))
            )

    def known(self, key, msg):
        """A violation identified by `key`. If the key is listed in the
        committed known-findings file it is reported as such, otherwise it is
        a violation like any other."""
        if key in self.known_keys:
            self.known_hit[key] = msg
            self.known_hit_keys.add(key)
        else:
            raise Violation("[%s] %s" % (key, msg))

    def note(self, k, v):
        self.notes[k] = v


def _short(x, n=800):
    if not isinstance(x, str):
        try:
            x = json.dumps(x, default=repr)
        except Exception:
            x = repr(x)
    return x if len(x) <= n else x[: n - 3] + "..."


# --------------------------------------------------------------------------
# Choice-tree enumeration (stateless exploration)
# --------------------------------------------------------------------------


class Ctx(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []  # chosen index
        self.points = []  # (n, cost_of_alternatives, label)
        self.spent = 0

    def choose(self, n, label=None, cost=0):
        """Pick one of n alternatives. Alternative 0 is free, every other one
        costs `cost` deviations."""
        assert n >= 1
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise RuntimeError(
                    "replay divergence at point %d (%s): choice %d of %d"
                    % (i, label, c, n)
                )
        else:
            c = 0
        self.points.append((n, cost, label))
        self.trace.append(c)
        if c:
            self.spent += cost
        return c

    def pick(self, seq, label=None, cost=0):
        return seq[self.choose(len(seq), label, cost)]


def explore(fn, rec=None, bound=None, max_cases=None, first=None, shard=None):
    """Run fn(ctx) for every choice sequence (DFS), executions cost <= bound.

    Returns the number of complete executions. `first` restricts the first
    choice(s) (a tuple), to split a tree over units; `shard`=(k, n) to the
    executions whose first non-default choice is at a position = k mod n."""
    base = list(first or ())
    prefix = list(base)
    n = 0
    while True:
        ctx = Ctx(prefix)
        try:
            fn(ctx)
        except PathPruned:
            pass
        n += 1
        if rec is not None:
            rec.beat()
        if max_cases is not None and n >= max_cases:
            raise RuntimeError("case cap hit: %d" % max_cases)
        # next prefix
        trace, points = ctx.trace, ctx.points
        # cumulative cost before each point
        cum = []
        s = 0
        for c, (k, cost, _) in zip(trace, points):
            cum.append(s)
            if c:
                s += cost
        i = len(trace) - 1
        nxt = None
        while i >= len(base):
            k, cost, _ = points[i]
            c = trace[i] + 1
            mine = shard is None or i % shard[1] == shard[0] or any(trace[:i])
            if c < k and mine and (bound is None or cum[i] + cost <= bound):
                nxt = trace[:i] + [c]
                break
            i -= 1
        if nxt is None:
            return n
        prefix = nxt


def scripts(alphabet, T):
    """All sequences of length T; for T = (p, L) all those of length L that
    repeat a pattern of at most p letters."""
    alphabet = list(alphabet)
    if isinstance(T, int):
        return itertools.product(alphabet, repeat=T)
    p, L = T
    seen = {}
    for k in range(1, p + 1):
        for pat in itertools.product(alphabet, repeat=k):
            seen[(pat * L)[:L]] = None
    return list(seen)


# --------------------------------------------------------------------------
# Runner
# --------------------------------------------------------------------------


def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    keys = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("status") == "finding" and d["property"] == prop:
                keys[d["key"]] = d
    return keys


def _child(mod, prop, unit, idx, tier, outfile, beat, scratch, known):
    # runs in the forked child
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:  # die with the runner
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("MC_VERBOSE"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    import random

    import numpy as np

    random.seed(0)
    np.random.seed(0)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(0)
    rec = Recorder(prop, unit[0], known, beat)
    rec._scratch = scratch
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    res = {"unit": unit[0], "violation": None, "error": None}
    t0 = time.time()
    try:
        unit[1](rec, *unit[2:])
    except Violation as e:
        res["violation"] = {
            "msg": str(e),
            "case": rec.current,
            "tb": traceback.format_exc(),
        }
    except BaseException as e:  # the execution itself blew up
        res["violation"] = {
            "msg": "execution raised %s: %s" % (type(e).__name__, e),
            "case": rec.current,
            "tb": traceback.format_exc(),
        }
    res.update(
        cases=rec.cases,
        transitions=rec.transitions,
        states=rec.states,
        outcomes=rec.outcomes,
        samples=rec.samples,
        known=rec.known_hit,
        notes=rec.notes,
        wall=time.time() - t0,
    )
    tmp = outfile + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump(_picklable(res), f)
    os.rename(tmp, outfile)
    os._exit(0)


def _picklable(res):
    v = res["violation"]
    if v is not None:
        v["case"] = _short(v["case"], 20000)
    return res


def run_units(mod, prop, units, tier, jobs=8, hang_s=int(os.environ.get("VERIF_HANG_S", 240))):
    """Fork one child per unit, at most `jobs` at a time."""
    known = load_known(prop)
    shm = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    base = tempfile.mkdtemp(prefix="mc_%s_" % prop, dir=shm)
    results = []
    pending = list(enumerate(units))
    running = {}
    stop = False
    retried = set()
    try:
        while (pending and not stop) or running:
            while pending and len(running) < jobs and not stop:
                idx, unit = pending.pop(0)
                outfile = os.path.join(base, "r%d" % idx)
                beat = os.path.join(base, "b%d" % idx)
                scratch = os.path.join(base, "s%d" % idx)
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        _child(
                            mod, prop, unit, idx, tier, outfile, beat, scratch, known
                        )
                    finally:
                        os._exit(3)
                running[pid] = (idx, unit, outfile, beat, scratch, time.time())
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid in running:
                idx, unit, outfile, beat, scratch, t0 = running.pop(pid)
                _killpg(pid)
                if os.path.exists(outfile):
                    with open(outfile, "rb") as f:
                        results.append(pickle.load(f))
                else:
                    if idx not in retried:
                        retried.add(idx)
                        shutil.rmtree(scratch, ignore_errors=True)
                        pending.append((idx, unit))
                        continue
                    results.append(
                        _dead(unit, beat, "process died twice (status %d)" % status)
                    )
                shutil.rmtree(scratch, ignore_errors=True)
                if results[-1]["violation"]:
                    stop = True
                    if os.environ.get("VERIF_FAILFAST"):
                        return results
                continue
            now = time.time()
            for pid, (idx, unit, outfile, beat, scratch, t0) in list(running.items()):
                last = t0
                if os.path.exists(beat):
                    last = max(last, os.path.getmtime(beat))
                if now - last > hang_s:
                    _killpg(pid)
                    try:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                    except OSError:
                        pass
                    running.pop(pid)
                    results.append(
                        _dead(unit, beat, "no progress for %d s (hang)" % hang_s)
                    )
                    stop = True
            time.sleep(0.01)
        return results
    finally:
        for pid in running:
            _killpg(pid)
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def _dead(unit, beat, why):
    case = None
    try:
        case = json.load(open(beat))["case"]
    except Exception:
        pass
    return {
        "unit": unit[0],
        "violation": {"msg": why, "case": case, "tb": ""},
        "cases": 0,
        "transitions": 0,
        "states": set(),
        "outcomes": set(),
        "samples": [],
        "known": {},
        "notes": {},
        "wall": 0,
    }


def setup_imports():
    sys.path.insert(0, REPO)
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    sys.dont_write_bytecode = True
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    try:
        import torch

        torch.set_num_threads(1)
        # trigger torch's lazy imports once, before the units are forked
        torch.manual_seed(0)
        torch.optim.Adam(torch.nn.Linear(1, 1).parameters())
    except ImportError:
        pass
    import pfrl

    assert os.path.realpath(pfrl.__file__).startswith(os.path.realpath(REPO)), pfrl


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay = None
    jobs = int(os.environ.get("MC_JOBS", "8"))
    for i, a in enumerate(argv):
        if a == "--thorough":
            tier = "thorough"
        if a == "--quick":
            tier = "quick"
        if a == "--unit":
            only = argv[i + 1]
        if a == "--replay":
            replay = argv[i + 1]
    if replay:
        d = json.load(open(replay))
        only = d["unit"]
        tier = d["tier"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    setup_imports()
    mod = importlib.import_module("mc.props.%s" % prop.lower())
    units = mod.units(tier)
    if only:
        units = [u for u in units if u[0] == only or (not replay and only in u[0])]
    # longest units first would be ideal; keep declared order
    results = run_units(
        mod, prop, units, tier, jobs=jobs, hang_s=getattr(mod, "HANG_S", 240)
    )
    states, outcomes = set(), set()
    cases = transitions = 0
    samples = []
    notes = {}
    known = {}
    viol = []
    for r in sorted(results, key=lambda r: r["unit"]):
        cases += r["cases"]
        transitions += r["transitions"]
        states |= {r["unit"].encode()[:0] + s for s in r["states"]}
        outcomes |= r["outcomes"]
        if len(samples) < 12:
            samples += [{"unit": r["unit"], "case": s} for s in r["samples"][:1]]
        known.update(r["known"])
        for k, v in r["notes"].items():
            if isinstance(v, (int, float)) and isinstance(notes.get(k), (int, float)):
                notes[k] += v
            else:
                notes.setdefault(k, v)
        if r["violation"]:
            viol.append(r)
    if os.environ.get("MC_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:25]:
            print(
                "  %-50s %6.1fs cases=%d trans=%d states=%d"
                % (r["unit"], r["wall"], r["cases"], r["transitions"], len(r["states"]))
            )
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": cases,
            "evaluations": cases,
            "distinct_nontrivial": len(outcomes) if outcomes else len(states),
            "rule": getattr(mod, "RULE", "every case in the declared bounded space"),
            "units": len(results),
            "samples": samples,
            "exhaustive": not viol and not only,
            "bounds": mod.BOUNDS[tier] if hasattr(mod, "BOUNDS") else "",
            "notes": notes,
            "known_findings_reproduced": sorted(known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
    print(
        "property=%s tier=%s units=%d executions=%d states=%d transitions=%d "
        "outcomes=%d wall=%.1fs"
        % (
            prop,
            tier,
            len(results),
            cases,
            len(states),
            transitions,
            len(outcomes),
            wall,
        )
    )
    for k, msg in sorted(known.items()):
        print("KNOWN-FINDING: property=%s [%s] %s" % (prop, k, msg))
    if viol:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for r in viol[:3]:
            path = os.path.join(
                d, "%s-%s.json" % (prop, hashlib.md5(r["unit"].encode()).hexdigest()[:8])
            )
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "tier": tier,
                        "unit": r["unit"],
                        "case": r["violation"]["case"],
                        "message": r["violation"]["msg"],
                        "traceback": r["violation"]["tb"],
                        "rerun": "bash /verif/check.sh %s --replay %s" % (prop, path),
                    },
                    f,
                    indent=1,
                )
            print("unit=%s: %s" % (r["unit"], r["violation"]["msg"][:1500]))
            print("  case: %s" % _short(r["violation"]["case"], 1500))
            if os.environ.get("MC_TB"):
                print(r["violation"]["tb"])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
