"""P25  downloaded models and output directories survive kills, failures and races.

All short histories of download requests with every kill point (and torn
write) and every failing transfer; all schedules of concurrent callers within a
preemption bound; all histories of prepare_output_dir with every kill point.
"""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import zipfile

from mc import sched as SC
from mc.core import explore
from mc.fsim import CrashRecorder, read_tree, write_tree

RULE = "one case per (history, kill point or failing transfer or schedule) followed by all later requests; non-trivial outcomes = distinct file trees left behind"
BOUNDS = {
    "quick": "downloads: all sequences of 1-2 of 4 requests (3 models), each transfer failing at 4 points or not, x every kill point / torn write; 2 concurrent callers, all pairs of 3 requests, preemption bound 2; prepare_output_dir: all sequences of 1-3 calls (2 ids, backup on/off, user files written in between) x every kill point",
    "thorough": "sequences of 3 requests, 3 concurrent callers with preemption bound 2, sequences of 4 preparations",
}
ASSUMPTIONS = [
    "a killed process leaves exactly the file-system effects it had performed (no power failure); its file locks are released",
    "the server's answers are complete zip files or failures of the transfer",
    "rename within a file system is atomic",
]

MODELS = [("DQN", "Pong", "best"), ("DQN", "Pong", "final"), ("DDPG", "Hopper-v2", "best")]
REQS = {
    "a": ("DQN", "PongNoFrameskip-v4", "best", 0),
    "a'": ("DQN", "Pong", "best", 0),
    "b": ("DQN", "Pong", "final", 1),
    "c": ("DDPG", "Hopper-v2", "best", 2),
}


def content(i):
    alg, env, typ = MODELS[i]
    return {typ + "/model.pt": (alg + env + typ).encode() * 3, typ + "/optimizer.pt": b"opt%d" % i, typ + "/more/x.txt": b"x%d" % i}


def zipped(i):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for k, v in sorted(content(i).items()):
            z.writestr(zipfile.ZipInfo(k), v)
    return b.getvalue()


class Server:
    def __init__(self, mod):
        self.mod = mod
        self.downloads = []
        self.fail = None
        self.zips = {}
        for i, (alg, env, typ) in enumerate(MODELS):
            self.zips["%s/%s/%s.zip" % (alg, env, typ)] = (i, zipped(i))

    def retrieve(self, url, filename=None, reporthook=None, data=None):
        from urllib.error import URLError

        key = url.split("://", 1)[1].split("/", 1)[1]
        i, body = self.zips[key]
        self.downloads.append(i)
        fail = self.fail
        if fail == 0:
            raise URLError("no connection")
        if reporthook:
            reporthook(0, 64, len(body))
        with open(filename, "wb", buffering=0) as f:
            n = len(body) if fail in (None, 3) else len(body) // 2
            f.write(body[:n])
            if fail == 1:
                raise URLError("connection reset")
        if fail == 2:
            from urllib.error import ContentTooShortError

            raise ContentTooShortError("short", b"")
        if reporthook:
            reporthook(1, 64, len(body))
        if fail == 3:
            raise KeyboardInterrupt()
        return filename, {}


@contextlib.contextmanager
def installed(root, server):
    import urllib.request

    import pfrl.utils.pretrained_models as M

    M = sys.modules["pfrl.utils.pretrained_models"]
    saved = [(urllib.request, "urlretrieve", urllib.request.urlretrieve), (sys, "stdout", sys.stdout)]
    old_env = os.environ.get("PFRL_MODELS_ROOT")
    default = old_env or os.path.join(os.path.expanduser("~"), ".pfrl", "models")
    os.environ["PFRL_MODELS_ROOT"] = root
    for k, v in list(vars(M).items()):
        if v == default:
            saved.append((M, k, v))
            setattr(M, k, root)
        if v is urllib.request.urlretrieve:
            saved.append((M, k, v))
            setattr(M, k, server.retrieve)
    for attr in ("_USE_CP_SENDFILE", "_USE_CP_COPY_FILE_RANGE"):
        if hasattr(shutil, attr):
            saved.append((shutil, attr, getattr(shutil, attr)))
            setattr(shutil, attr, False)
    urllib.request.urlretrieve = server.retrieve
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        if old_env is None:
            os.environ.pop("PFRL_MODELS_ROOT", None)
        else:
            os.environ["PFRL_MODELS_ROOT"] = old_env
        for o, k, v in reversed(saved):
            setattr(o, k, v)


def request(r):
    from pfrl.utils import download_model

    alg, env, typ, i = REQS[r]
    path, cached = download_model(alg, env, model_type=typ)
    return path, cached


def verify(rec, root, path, i, where):
    want = os.path.join(root, MODELS[i][0], MODELS[i][1], MODELS[i][2])
    rec.check(os.path.realpath(path) == os.path.realpath(want), "%s: path %s" % (where, path))
    got = {}
    if os.path.isdir(path):
        got = {MODELS[i][2] + "/" + k: v for k, v in read_tree(path).items() if v is not None}
    rec.check(got == content(i), "%s: the returned model is incomplete: files %r of %r" % (where, sorted((k, len(v)) for k, v in got.items()), sorted(content(i))))


def unit_crash(rec, reqs):
    """A history of requests; its last one may fail or be killed at any point."""
    for fail in (None, 0, 1, 2, 3):
        base = tempfile.mkdtemp(dir=rec.scratch)
        root = os.path.join(base, "models")
        os.makedirs(root)
        server = Server(None)
        acked = set()
        with installed(root, server):
            cr = CrashRecorder(root)
            with cr:
                for k, r in enumerate(reqs):
                    rec.begin({"requests": reqs, "failing transfer": fail, "at": k})
                    rec.step()
                    last = k == len(reqs) - 1
                    server.fail = fail if last else None
                    i = REQS[r][3]
                    cr.mark = (k, tuple(sorted(acked)))
                    n0 = len(server.downloads)
                    files0 = {p for p, v in read_tree(root).items() if v}
                    try:
                        path, cached = request(r)
                        rec.check(not (last and fail is not None and i not in acked), "a failed transfer was reported as success")
                        rec.check(cached == (i in acked), "is_cached=%r, acknowledged before: %r" % (cached, i in acked))
                        rec.check(len(server.downloads) - n0 == (0 if i in acked else 1), "%d downloads" % (len(server.downloads) - n0))
                        verify(rec, root, path, i, "request %d" % k)
                        acked.add(i)
                    except (OSError, KeyboardInterrupt) as e:
                        if not (last and fail is not None):
                            raise
                        left = {p for p, v in read_tree(root).items() if v} - files0
                        rec.check(not left, "a failed transfer leaves %r" % (sorted(left),))
            snaps = cr.snaps
        # every state a kill can leave behind, followed by every request
        end = read_tree(root)
        for mark, desc, tree in snaps + [((len(reqs), tuple(sorted(acked))), "after the history", end)]:
            rec.begin({"requests": reqs, "failing transfer": fail, "kill": desc, "before": mark})
            rec.step()
            rec.state((reqs, fail, desc))
            for order in (("a", "b", "c"), ("c", "b", "a'")):
                r2 = os.path.join(base, "r2")
                shutil.rmtree(r2, ignore_errors=True)
                write_tree(r2, tree)
                s2 = Server(None)
                with installed(r2, s2):
                    for r in order:
                        i = REQS[r][3]
                        n0 = len(s2.downloads)
                        path, cached = request(r)
                        rec.check(not (cached and len(s2.downloads) > n0), "a cached model was downloaded")
                        if i in mark[1]:
                            rec.check(cached and len(s2.downloads) == n0, "model %d, complete before the kill, was fetched again" % i)
                        verify(rec, r2, path, i, "after kill at '%s'" % desc)
                        rec.outcome((cached, len(s2.downloads), i))
                rec.outcome(sorted((k, len(v or b"")) for k, v in tree.items() if "_dl_cache/tmp" not in k))
        shutil.rmtree(base, ignore_errors=True)


# ------------------------------------------------------------------ concurrency


class FakeFileLocks:
    def __init__(self):
        self.locks = {}

    def make(reg):
        class FakeFileLock(object):
            def __init__(self, lock_file, timeout=-1, *a, **k):
                self.path = os.path.realpath(str(lock_file))
                self.lock_file = lock_file
                self.n = 0

            def acquire(self, timeout=None, *a, **k):
                if self.n == 0:
                    reg.locks.setdefault(self.path, SC.FakeLock()).acquire()
                self.n += 1
                return self

            def release(self, force=False):
                self.n = 0 if force else self.n - 1
                if self.n == 0:
                    reg.locks[self.path].release()

            @property
            def is_locked(self):
                return self.n > 0

            def __enter__(self):
                self.acquire()
                return self

            def __exit__(self, *a):
                self.release()

        return FakeFileLock


@contextlib.contextmanager
def points(s):
    """A scheduling point before every file-system operation of a caller."""
    import filelock

    saved = []

    def patch(o, k, v):
        saved.append((o, k, getattr(o, k)))
        setattr(o, k, v)

    fake = FakeFileLocks().make()
    real = {id(getattr(filelock, k)) for k in ("FileLock", "UnixFileLock", "SoftFileLock") if hasattr(filelock, k)}
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == "filelock" or name.startswith("pfrl")):
            for k, v in list(vars(mod).items()):
                if id(v) in real:
                    patch(mod, k, fake)

    def wrap(f, label):
        def g(*a, **k):
            if s.me() is not None and s.me() is not s.main:
                s.point(label)
            return f(*a, **k)

        return g

    for k in ("rename", "replace", "makedirs", "mkdir", "unlink", "remove", "rmdir"):
        patch(os, k, wrap(getattr(os, k), k))
    for k in ("exists", "isdir", "isfile"):
        patch(os.path, k, wrap(getattr(os.path, k), k))
    import builtins

    real_open = builtins.open

    def op(file, mode="r", *a, **k):
        if s.me() is not None and s.me() is not s.main:
            s.point("open")
        return real_open(file, mode, *a, **k)

    patch(builtins, "open", op)
    patch(io, "open", op)
    try:
        yield
    finally:
        for o, k, v in reversed(saved):
            setattr(o, k, v)


def unit_race(rec, reqs, bound):
    def go(ctx):
        rec.begin({"concurrent": reqs, "schedule": ctx.prefix})
        rec.step()
        root = tempfile.mkdtemp(dir=rec.scratch)
        server = Server(None)
        s = SC.Sched(ctx)
        res = {}

        def job(k):
            path, cached = request(reqs[k])
            i = REQS[reqs[k]][3]
            with s.atomic():
                verify(rec, root, path, i, "caller %d" % k)
            res[k] = cached

        try:
            with installed(root, server):
                with SC.patched(s):
                    with points(s):
                        tasks = [SC.FakeProcess(target=job, args=(k,)) for k in range(len(reqs))]
                        for t in tasks:
                            t.start()
                        for t in tasks:
                            t.join()
                        rec.check(len(res) == len(reqs), "a caller failed: %r" % (sorted(res),))
            idx = [REQS[r][3] for r in reqs]
            rec.check(sorted(server.downloads) == sorted(set(idx)), "downloads %r for requests %r" % (server.downloads, reqs))
            for i in set(idx):
                cs = sorted(res[k] for k in res if idx[k] == i)
                rec.check(cs == [False] + [True] * (len(cs) - 1), "is_cached %r of the callers" % (cs,))
            rec.outcome((reqs, tuple(sorted(res.items()))))
            rec.state((reqs, tuple(server.downloads), s.points))
        finally:
            shutil.rmtree(root, ignore_errors=True)

    explore(go, rec, bound=bound)


# ------------------------------------------------------------ output directories

CALLS = [("x", True, {"lr": 0.1}), ("x", True, {"lr": 0.2, "n": [1, None]}), ("x", False, {"lr": 0.3}), ("y", True, {"z": "q"})]


@contextlib.contextmanager
def fast_prepare(clock):
    """No git; a clock that advances with every reading."""
    import datetime as D

    import pfrl
    P = sys.modules["pfrl.experiments.prepare_output_dir"]

    class Now(D.datetime):
        @classmethod
        def now(cls, tz=None):
            clock[0] += 1
            return D.datetime(2020, 1, 1) + D.timedelta(seconds=clock[0])

    class Dt:
        datetime = Now

        def __getattr__(self, k):
            return getattr(D, k)

    saved = []
    for k, v in list(vars(P).items()):
        if v is D:
            saved.append((P, k, v))
            setattr(P, k, Dt())
        elif v is D.datetime:
            saved.append((P, k, v))
            setattr(P, k, Now)
    saved.append((P, "is_under_git_control", P.is_under_git_control))
    P.is_under_git_control = lambda: False
    for attr in ("_USE_CP_SENDFILE", "_USE_CP_COPY_FILE_RANGE"):
        if hasattr(shutil, attr):
            saved.append((shutil, attr, getattr(shutil, attr)))
            setattr(shutil, attr, False)
    try:
        yield P
    finally:
        for o, k, v in reversed(saved):
            setattr(o, k, v)


def unit_prepare(rec, n):
    import argparse
    import json

    for seq in itertools.product(range(len(CALLS)), repeat=n):
        base = tempfile.mkdtemp(dir=rec.scratch)
        root = os.path.join(base, "results")
        clock = [0]
        os.makedirs(root)
        before = {}
        with fast_prepare(clock) as P:
            for k, c in enumerate(seq):
                exp, backup, args = CALLS[c]
                rec.begin({"calls": [CALLS[x][:2] for x in seq[: k + 1]]})
                rec.step()
                before = read_tree(root)
                old = {p: v for p, v in before.items() if p == exp or p.startswith(exp + os.sep)}
                cr = CrashRecorder(root)
                with cr:
                    out = P.prepare_output_dir(argparse.Namespace(**args) if c % 2 else args, basedir=root, exp_id=exp, argv=["cmd", "--k", str(k)], make_backup=backup)
                after = read_tree(root)
                rec.check(os.path.realpath(out) == os.path.realpath(os.path.join(root, exp)), "output directory %r" % out)
                rec.check(json.loads(after[exp + "/args.txt"]) == args, "args.txt %r" % after[exp + "/args.txt"])
                rec.check(after[exp + "/command.txt"] == ("cmd --k %d" % k).encode(), "command.txt")
                rec.check(json.loads(after[exp + "/environ.txt"]) == dict(os.environ), "environ.txt")
                o, a = (before.get(exp + "/start.txt") or b"").splitlines(), after[exp + "/start.txt"].splitlines()
                rec.check(a[:-1] == o and len(a) == len(o) + 1, "start.txt does not gain one line: %r -> %r" % (o, a))
                new_backups = [p for p in after if p.endswith(".backup") and p not in before]
                rec.check(len(new_backups) == (1 if old and backup else 0), "backups %r" % new_backups)
                own = {exp + "/" + f for f in ("args.txt", "command.txt", "environ.txt", "start.txt")}
                for p, v in before.items():
                    if p not in own:
                        rec.check(after.get(p, "gone") == v, "%s was changed" % p)
                if new_backups:
                    b = {p[len(new_backups[0]) :]: v for p, v in after.items() if p == new_backups[0] or p.startswith(new_backups[0] + os.sep)}
                    rec.check(b == {p[len(exp) :]: v for p, v in old.items()}, "the backup is not a copy")
                # kills: nothing written earlier is lost
                for mark, desc, tree in cr.snaps:
                    rec.begin({"calls": [CALLS[x][:2] for x in seq[: k + 1]], "kill": desc})
                    rec.step()
                    rec.state((seq[: k + 1], desc))
                    full = [p for p in tree if p.endswith(".backup") and p not in before and {q[len(p) :]: v for q, v in tree.items() if q == p or q.startswith(p + os.sep)} == {q[len(exp) :]: v for q, v in old.items()}]
                    for p, v in before.items():
                        if p in own:
                            if backup:
                                rec.check(tree.get(p) == v or full, "%s of the earlier run is lost by a kill at '%s'" % (p, desc))
                            elif p.endswith("start.txt"):
                                rec.check((tree.get(p) or b"").startswith(v), "start.txt lost by a kill at '%s'" % desc)
                        else:
                            rec.check(tree.get(p, "gone") == v, "%s lost by a kill at '%s'" % (p, desc))
                    rec.outcome((len(tree), bool(full)))
                # the user writes results
                with open(os.path.join(out, "scores.txt"), "a") as f:
                    f.write("run %d\n" % k)
                os.makedirs(os.path.join(out, "best"), exist_ok=True)
                with open(os.path.join(out, "best", "m%d.pt" % k), "w") as f:
                    f.write("m%d" % k)
        shutil.rmtree(base, ignore_errors=True)


def unit_ids(rec):
    """Experiment ids and git information, with scripted git answers."""
    import json
    import subprocess

    import pfrl  # noqa
    import pfrl.experiments
    P = sys.modules["pfrl.experiments.prepare_output_dir"]
    ids = {}
    saved = (subprocess.check_output, P.is_under_git_control)
    try:
        for head, diff, argv, prefix in itertools.product((b"h1\n", b"h2\n"), (b"", b"d"), (["a"], ["a", "b"]), (None, "p")):
            rec.begin({"head": head.decode(), "diff": diff.decode(), "argv": argv, "prefix": prefix})
            rec.step()
            ans = {"rev-parse": head, "diff": diff, "status": b"st", "log": b"lg"}
            subprocess.check_output = lambda cmd, *a, **k: ans[cmd[1]]
            P.is_under_git_control = lambda: True
            i1 = P.generate_exp_id(prefix, argv)
            i2 = P.generate_exp_id(prefix=prefix, argv=list(argv))
            rec.check(i1 == i2, "the id is not deterministic")
            rec.check(os.sep not in i1 and head.decode().strip() in i1 and (prefix is None or i1.startswith(prefix)), "id %r" % i1)
            ids[i1] = (head, diff, tuple(argv), prefix)
            d = tempfile.mkdtemp(dir=rec.scratch)
            out = P.prepare_output_dir({}, basedir=d, exp_id="e", argv=argv)
            t = read_tree(out)
            rec.check(t.get("git-head.txt") == head and t.get("git-diff.txt") == diff and t.get("git-status.txt") == b"st" and t.get("git-log.txt") == b"lg", "git information %r" % {k: v for k, v in t.items() if k.startswith("git")})
            shutil.rmtree(d, ignore_errors=True)
            rec.state(i1)
            rec.outcome(i1)
        rec.begin({"ids": "distinct"})
        rec.check(len(ids) == 16, "%d different ids for 16 different experiments" % len(ids))
        P.is_under_git_control = lambda: False
        try:
            P.generate_exp_id()
            rec.fail("an id without git")
        except RuntimeError:
            pass
        for fmt in ("%Y%m%dT%H%M%S.%f", "%Y"):
            rec.begin({"no git, no id": fmt})
            d = tempfile.mkdtemp(dir=rec.scratch)
            out = P.prepare_output_dir({}, basedir=d, time_format=fmt, argv=[])
            import datetime

            datetime.datetime.strptime(os.path.basename(out), fmt)
            rec.check(os.path.dirname(os.path.realpath(out)) == os.path.realpath(d) and os.path.isdir(out), "output directory %r" % out)
            shutil.rmtree(d, ignore_errors=True)
    finally:
        subprocess.check_output, P.is_under_git_control = saved


def unit_args(rec):
    """download_model accepts exactly the published algorithms and model types."""
    M = __import__("pfrl.utils.pretrained_models", fromlist=["x"])
    M = sys.modules["pfrl.utils.pretrained_models"]
    from pfrl.utils import download_model

    saved = M.download_and_store_model
    try:
        for alg in sorted(M.MODELS) + ["XYZ"]:
            for typ in ("best", "final", "other"):
                for env in ("PongNoFrameskip-v4", "Hopper-v2"):
                    rec.begin({"alg": alg, "type": typ, "env": env})
                    rec.step()
                    calls = []

                    def fake(a, u, e, t):
                        calls.append((a, e, t))
                        return "P", True

                    M.download_and_store_model = fake
                    ok = alg in M.MODELS and typ in M.MODELS[alg]
                    try:
                        r = download_model(alg, env, model_type=typ)
                        rec.check(ok, "accepted %s %s" % (alg, typ))
                        rec.check(r == ("P", True) and calls == [(alg, env.replace("NoFrameskip-v4", ""), typ)], "calls %r" % (calls,))
                    except AssertionError:
                        rec.check(not ok, "refused %s %s" % (alg, typ))
                    rec.outcome((alg, typ, ok))
    finally:
        M.download_and_store_model = saved


def units(tier):
    Th = tier == "thorough"
    us = []
    for n in (1, 2, 3) if Th else (1, 2):
        for reqs in itertools.product(sorted(REQS), repeat=n):
            us.append(("kill-" + "".join(reqs), unit_crash, reqs))
    for reqs in [("a", "a'"), ("a", "b"), ("a", "c"), ("b", "b")]:
        us.append(("race-" + "".join(reqs), unit_race, reqs, 3 if Th else 2))
    if Th:
        for reqs in [("a", "a", "a'"), ("a", "b", "a"), ("a", "b", "c")]:
            us.append(("race-" + "".join(reqs), unit_race, reqs, 2))
    for n in (1, 2, 3) if not Th else (1, 2, 3, 4):
        us.append(("prepare-%d" % n, unit_prepare, n))
    us += [("ids", unit_ids), ("args", unit_args)]
    return us
