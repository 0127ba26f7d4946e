"""Crash-point recorder.

While active, every file-system effect of the code under test below `root`
goes to the real file system, and the whole tree is snapshotted around each
effect (open-for-write, raw write, rename, remove, mkdir).  Python's own user
space buffers are real: bytes that were not flushed are not in the snapshot.
A raw write additionally yields torn variants (a prefix of its bytes).
`snaps` is the exhaustive list of states a process kill can leave behind.
"""
import builtins
import io
import os


def read_tree(root):
    t = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel != ".":
            t[rel] = None
        for f in files:
            p = os.path.join(d, f)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                t[r] = ("link", os.readlink(p))
                continue
            with _real_open(p, "rb") as fp:
                t[r] = fp.read()
    return t


def write_tree(root, tree):
    os.makedirs(root, exist_ok=True)
    for r in sorted(tree):
        p = os.path.join(root, r)
        v = tree[r]
        if v is None:
            os.makedirs(p, exist_ok=True)
        elif isinstance(v, tuple):
            os.symlink(v[1], p)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with _real_open(p, "wb") as fp:
                fp.write(v)


_real_open = builtins.open


class CrashRecorder(object):
    def __init__(self, root, torn=True):
        self.root = os.path.realpath(root)
        self.torn = torn
        self.snaps = []  # (mark, description, tree)
        self.mark = None
        self._saved = []
        self._seen = None
        self.on = False

    def under(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def snap(self, desc, tree=None):
        if not self.on:
            return
        tree = read_tree(self.root) if tree is None else tree
        key = (repr(self.mark), tuple(sorted(tree.items(), key=lambda kv: kv[0])))
        if key == self._seen:
            return
        self._seen = key
        self.snaps.append((self.mark, desc, tree))

    # -- raw file
    def make_raw(self, path, mode):
        rec = self

        class Raw(io.FileIO):
            def write(self, b):
                b = bytes(b)
                if rec.torn and rec.on and len(b) > 1:
                    base = read_tree(rec.root)
                    r = os.path.relpath(os.path.realpath(path), rec.root)
                    cur = base.get(r) or b""
                    pos = len(cur) if "a" in mode else self.tell()
                    for k in sorted({1, len(b) // 2, len(b) - 1}):
                        t = dict(base)
                        t[r] = cur[:pos] + b[:k] + cur[pos + k :]
                        rec.snap("torn write %d/%d to %s" % (k, len(b), r), t)
                n = super().write(b)
                rec.snap("write %d to %s" % (len(b), os.path.basename(str(path))))
                return n

            def truncate(self, size=None):
                n = super().truncate(size)
                rec.snap("truncate")
                return n

        return Raw(path, mode)

    def _open(
        self,
        file,
        mode="r",
        buffering=-1,
        encoding=None,
        errors=None,
        newline=None,
        closefd=True,
        opener=None,
    ):
        if (
            isinstance(file, int)
            or opener is not None
            or not any(c in mode for c in "wax+")
            or not self.under(file)
        ):
            return _real_open(
                file, mode, buffering, encoding, errors, newline, closefd, opener
            )
        self.snap("before open %s" % file)
        rawmode = mode.replace("b", "").replace("t", "")
        raw = self.make_raw(file, rawmode)
        self.snap("open %s %s" % (mode, file))
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text

    def __enter__(self):
        self.on = True
        self._patch(builtins, "open", self._open)
        self._patch(io, "open", self._open)
        for name in (
            "rename",
            "replace",
            "remove",
            "unlink",
            "rmdir",
            "mkdir",
            "makedirs",
            "truncate",
            "link",
            "symlink",
            "removedirs",
            "renames",
        ):
            self._patch(os, name, self._wrap(name, getattr(os, name)))
        return self

    def _wrap(self, name, f):
        def g(*a, **k):
            self.snap("before " + name)
            r = f(*a, **k)
            self.snap("%s %s" % (name, a[:2]))
            return r

        return g

    def _patch(self, obj, name, val):
        self._saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def __exit__(self, *a):
        self.snap("end")
        self.on = False
        for obj, name, val in reversed(self._saved):
            setattr(obj, name, val)
        self._saved = []
