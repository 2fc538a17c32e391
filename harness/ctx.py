"""Bookkeeping of one harness run."""
import os, random, shutil, tempfile, time, hashlib
from . import build, run


class Ctx:
    def __init__(self, prop, seed=1, deep=0, budget=60):
        self.prop, self.seed, self.deep = prop, seed, deep
        self.rng = random.Random("%s/%s/%s" % (prop, seed, deep))
        self.scratch = tempfile.mkdtemp(prefix="gdh_")
        self.exe, self.msgs = build.build()
        self.drv = run.Driver(self.exe, self.scratch) if self.exe else None
        self.fails, self.n, self.samples, self.seen, self.nontrivial = [], 0, [], set(), 0
        self.deadline = time.time() + budget
        self.skipped = []
        self.known = []

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def out_of_time(self): return time.time() > self.deadline or len(self.fails) >= 5

    def path(self, n): return os.path.join(self.scratch, n)

    def put(self, name, data):
        with open(self.path(name), "wb") as f: f.write(data)
        return name

    def get(self, name):
        try:
            with open(self.path(name), "rb") as f: return f.read()
        except OSError:
            return None

    def count(self, key, nontrivial=True, sample=None):
        self.n += 1
        h = hashlib.md5(repr(key).encode()).digest()
        if h not in self.seen:
            self.seen.add(h)
            if nontrivial: self.nontrivial += 1
        if sample is not None and len(self.samples) < 6: self.samples.append(str(sample)[:300])

    def fail(self, what, cmds, files=None, expected=None, observed=None, **kw):
        if len(self.fails) < 5:
            self.fails.append(dict(what=what, commands=cmds if isinstance(cmds, list) else [cmds],
                                   files={k: (v.hex() if isinstance(v, bytes) else v) for k, v in (files or {}).items()},
                                   expected=str(expected)[:4000], observed=str(observed)[:4000], **kw))

    def has(self, cmd):
        """is this command linked in (its section compiled)?"""
        if self.drv is None: return False
        if not hasattr(self, "_has"): self._has = {}
        if cmd not in self._has:
            r = self.drv.one(cmd)
            self._has[cmd] = r != "nocmd"
            if r == "nocmd": self.skipped.append("command %s is not available (its section did not compile)" % cmd)
        return self._has[cmd]
