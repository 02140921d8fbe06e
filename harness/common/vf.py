"""Same protocol as vf.hpp, for drivers in Python."""
import argparse
import hashlib
import os
import random
import threading

HANG_EXIT = 3


class V:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--repo", default="/repo")
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--shard", default="0/1")
        ap.add_argument("--resume", type=int, default=0)
        ap.add_argument("--only", default="")
        ap.add_argument("--repeat", type=int, default=1)
        ap.add_argument("--out", default="/dev/stderr")
        ap.add_argument("--tool", default="py")
        self.a = ap.parse_args()
        self.repo, self.thorough = self.a.repo, self.a.tier == "thorough"
        self.shard, self.shards = map(int, self.a.shard.split("/"))
        self.fd = os.open(self.a.out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        self.lock = threading.Lock()
        self.ordinal, self.scenario = 0, "init"
        self.nviol, self.counts, self.sets, self.samples = {}, {}, {}, []
        self.timer = None
        self.tmp = os.environ.get("VF_TMP", "/tmp")

    def emit(self, s):
        os.write(self.fd, (s.replace("\n", " ").replace("\0", " ").replace("\r", " ") + "\n").encode("utf-8", "replace"))

    def viol(self, key, detail):
        with self.lock:
            self.nviol[key] = self.nviol.get(key, 0) + 1
            if self.nviol[key] <= 3:
                self.emit("VIOL %s @@ %s @@ %s" % (key, self.scenario, str(detail)[:1500]))

    def check(self, cond, key, detail):
        if not cond:
            self.viol(key, detail() if callable(detail) else detail)

    def count(self, name, n=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, what):
        h = hashlib.sha1(repr(what).encode("utf-8", "replace")).hexdigest()[:15]
        with self.lock:
            s = self.sets.setdefault(name, set())
            if len(s) < 300000:
                s.add(h)

    def sample(self, s, most=6):
        with self.lock:
            if len(self.samples) < most:
                self.samples.append(str(s)[:400])

    def _hang(self):
        self.emit("HANG live " + self.scenario)
        os._exit(HANG_EXIT)

    def run(self, ident, fn, watchdog):
        """Runs one scenario, unless it is of an earlier run or not the one asked for."""
        self.ordinal += 1
        if self.a.only:
            if self.a.only != ident:
                return
        elif self.ordinal <= self.a.resume:
            return
        for _ in range(self.a.repeat):
            self.scenario = ident
            self.emit("AT %d %s" % (self.ordinal, ident))
            t = threading.Timer(watchdog, self._hang)
            t.daemon = True
            t.start()
            try:
                fn(random.Random(ident))
            finally:
                t.cancel()
            self.scenario = "between"

    def batches(self, name, n, fn, watchdog=60, mult=8):
        """n runs of fn, each with random numbers of its own."""
        if self.a.only:
            if self.a.only.startswith(name + "|s="):
                self.run(self.a.only, fn, watchdog)
            return
        for i in range(n * (mult if self.thorough else 1)):
            if i % self.shards == self.shard:
                self.run("%s|s=%d.%d" % (name, self.a.seed, i), fn, watchdog)
                self.count("batches:" + name)

    def finish(self):
        for k, n in self.counts.items():
            self.emit("STAT %s %d" % (k, n))
        for k, n in self.nviol.items():
            self.emit("NVIOL %s %d" % (k, n))
        for k, s in self.sets.items():
            s = sorted(s)
            for i in range(0, len(s), 2000):
                self.emit("SEEN %s %s" % (k, " ".join(s[i:i + 2000])))
        for s in self.samples:
            self.emit("SAMPLE " + s)
        self.emit("DONE")
