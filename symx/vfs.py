"""an in-memory stand-in for the file system: every write or delete of the code under test lands here and is recorded"""
import builtins
import copy
import io
import json
import os
import pickle
import posixpath
import shutil
import stat as _stat

ROOT = "/vfs"


class _File:
    def __init__(self, fs, path, mode, obj=None):
        self.fs, self.path, self.mode = fs, path, mode
        self.binary = "b" in mode
        data = fs.files.get(path, b"") if ("r" in mode or "a" in mode) else b""
        self.obj = data if not isinstance(data, bytes) else None
        raw = data if isinstance(data, bytes) else b""
        self.buf = io.BytesIO(raw) if self.binary else io.StringIO(raw.decode())
        if "a" in mode:
            self.buf.seek(0, 2)
        if "w" in mode or "a" in mode or "x" in mode or "+" in mode:
            fs.files[path] = b"" if "a" not in mode else raw
        self.closed = False
        self.name = path

    def __getattr__(self, k):
        return getattr(self.buf, k)

    def __iter__(self):
        return iter(self.buf)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.mode.strip("tb") != "r":
            v = self.buf.getvalue()
            v = v if self.binary else v.encode()
            self.fs.files[self.path] = self.obj if self.obj is not None else v


class VFS:
    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.dirs = {"/", ROOT}
        self.files = {}
        self.ops = []  # (kind, path) of everything that writes or deletes
        self.cwd = ROOT

    # ---- paths
    def norm(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        return posixpath.normpath(p if p.startswith("/") else self.cwd + "/" + p)

    def mine(self, p):
        if isinstance(p, int):
            return False
        try:
            q = self.norm(p)
        except TypeError:
            return False
        return q == ROOT or q.startswith(ROOT + "/")

    def tree(self):
        return frozenset(self.dirs), {k: v for k, v in self.files.items()}

    def under(self, d):
        d = self.norm(d)
        return {k[len(d) + 1 :]: v for k, v in self.files.items() if k.startswith(d + "/")}

    # ---- operations
    def stat(self, p, *a, **k):
        if not self.mine(p):
            return self.real["os.stat"](p, *a, **k)
        q = self.norm(p)
        if q in self.dirs:
            m = _stat.S_IFDIR | 0o755
        elif q in self.files:
            m = _stat.S_IFREG | 0o644
        else:
            raise FileNotFoundError(2, "No such file or directory", q)
        return os.stat_result((m, 1, 1, 1, 0, 0, 0, 0, 0, 0))

    def mkdir(self, p, mode=0o777, **k):
        q = self.norm(p)
        self.ops.append(("mkdir", q))
        if q in self.dirs or q in self.files:
            raise FileExistsError(17, "File exists", q)
        if posixpath.dirname(q) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", q)
        self.dirs.add(q)

    def listdir(self, p="."):
        if not self.mine(p):
            return self.real["os.listdir"](p)
        q = self.norm(p)
        return sorted({x[len(q) + 1 :].split("/")[0] for x in list(self.dirs) + list(self.files) if x.startswith(q + "/")})

    def unlink(self, p, **k):
        q = self.norm(p)
        self.ops.append(("delete", q))
        if q not in self.files:
            raise FileNotFoundError(2, "No such file or directory", q)
        del self.files[q]

    def rmdir(self, p, **k):
        q = self.norm(p)
        self.ops.append(("delete", q))
        if self.listdir(q):
            raise OSError(39, "Directory not empty", q)
        self.dirs.discard(q)

    def rmtree(self, p, *a, **k):
        q = self.norm(p)
        self.ops.append(("delete", q))
        if q not in self.dirs:
            if k.get("ignore_errors") or (a and a[0]):
                return
            raise FileNotFoundError(2, "No such file or directory", q)
        self.dirs = {d for d in self.dirs if d != q and not d.startswith(q + "/")}
        self.files = {f: v for f, v in self.files.items() if not f.startswith(q + "/")}

    def rename(self, a, b, **k):
        x, y = self.norm(a), self.norm(b)
        self.ops += [("delete", x), ("write", y)]
        if x in self.files:
            self.files[y] = self.files.pop(x)
            return
        self.dirs = {y + d[len(x) :] if d == x or d.startswith(x + "/") else d for d in self.dirs}
        self.files = {y + f[len(x) :] if f.startswith(x + "/") else f: v for f, v in self.files.items()}

    def open(self, p, mode="r", *a, **k):
        if isinstance(p, int) or (not self.mine(p) and set(mode) <= set("rbtU")):
            return self.real["open"](p, mode, *a, **k)
        q = self.norm(p)
        if "r" in mode and "+" not in mode:
            if q not in self.files:
                raise FileNotFoundError(2, "No such file or directory", q)
        else:
            self.ops.append(("write", q))
            if "x" in mode and q in self.files:
                raise FileExistsError(17, "File exists", q)
            if posixpath.dirname(q) not in self.dirs:
                raise FileNotFoundError(2, "No such file or directory", q)
        return _File(self, q, mode)

    # ---- serialisation of symbolic objects
    def pdump(self, obj, f, *a, **k):
        f.obj = ("pickle", copy.deepcopy(obj))

    def pload(self, f, *a, **k):
        if isinstance(f.obj, tuple) and f.obj[0] == "pickle":
            return copy.deepcopy(f.obj[1])
        raise pickle.UnpicklingError("no pickle in this file")

    def jdump(self, obj, f, *a, **k):
        from symx import expr as E

        def ok(x):
            if x is None or isinstance(x, (str, int, float, bool, E.S, E.B)):
                return True
            if isinstance(x, dict):
                return all(isinstance(q, (str, int, float, bool, type(None))) and ok(v) for q, v in x.items())
            if isinstance(x, (list, tuple)):
                return all(map(ok, x))
            raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")

        ok(obj)
        f.obj = ("json", obj)

    def __enter__(self):
        self.real = {"open": builtins.open, "os.stat": os.stat, "os.listdir": os.listdir}
        P = [(os, "stat", self.stat), (os, "lstat", self.stat), (os, "mkdir", self.mkdir), (os, "listdir", self.listdir), (os, "unlink", self.unlink),
             (os, "remove", self.unlink), (os, "rmdir", self.rmdir), (os, "rename", self.rename), (os, "replace", self.rename), (shutil, "rmtree", self.rmtree),
             (shutil, "move", self.rename), (builtins, "open", self.open), (io, "open", self.open), (os, "getcwd", lambda: self.cwd)]
        if self.symbolic:
            P += [(pickle, "dump", self.pdump), (pickle, "load", self.pload), (json, "dump", self.jdump)]
        self.saved = [(o, n, getattr(o, n)) for o, n, _ in P]
        for o, n, v in P:
            setattr(o, n, v)
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)
