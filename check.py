#!/usr/bin/env python3
"""Decides one property by running the real code of /repo under monitors and sanitizers.

  check.py <ID> [--tier quick|thorough] [--seed N] [--repo DIR] [--keep]
  check.py --replay <file>

Exit 0: held on everything explored.  Exit 1: `VIOLATION property=<id> replay=<path>` printed.  Exit 2: the check
could not give an answer (harness does not build, machine trouble).
"""
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil, signal, subprocess, sys
import tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from specs import SPECS  # noqa: E402

CXX = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "clang++"
WRAPS = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
         "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock",
         "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv",
         "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "pthread_cond_clockwait"]
SAN = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
NCPU = os.cpu_count() or 4


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ---------------------------------------------------------------- build

class Builder:
    def __init__(self, repo, out, spec):
        self.repo, self.out, self.spec = repo, out, spec
        self.cpp = os.path.join(repo, "cpp_utils")
        self.src = os.path.join(self.cpp, "src", "cpp")
        self.incs = ["-I" + os.path.join(HERE, "stub"), "-I" + os.path.join(self.cpp, "include"),
                     "-I" + self.src, "-isystem" + os.path.join(repo, "thirdparty", "filewatch"),
                     "-I" + os.path.join(repo, "thirdparty", "filewatch"),
                     "-I" + os.path.join(repo, "thirdparty", "optionparser"),
                     "-I" + os.path.join(HERE, "harness", "common"), "-I" + os.path.join(HERE, "harness")]
        os.makedirs(out, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.objs = {}
        self.lock = threading.Lock()

    def flags(self, tool, defs=()):
        return (["-std=c++17", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-DNDEBUG", "-pthread",
                 "-D_GLIBCXX_ASSERTIONS", "-w", "-DVF_TOOL_" + tool.upper()] + ["-D" + d for d in defs]
                + SAN[tool] + self.incs)

    def cov(self):
        return ["-fsanitize-coverage=trace-pc-guard,no-prune",
                "-fsanitize-coverage-allowlist=" + os.path.join(HERE, "harness", "common", "points.txt")]

    def obj(self, path, tool, kind, defs=()):
        """kind: lib | driver | stub | sched"""
        key = (path, tool, kind, tuple(defs))
        with self.lock:
            if key in self.objs:
                return self.objs[key]
            name = hashlib.sha1(repr(key).encode()).hexdigest()[:16] + "_" + os.path.basename(path) + ".o"
            o = os.path.join(self.out, name)
            if kind == "sched":
                cmd = [CXX, "-std=c++17", "-O2", "-g1", "-w", "-c", path, "-o", o] + self.incs
            else:
                cmd = [CXX, "-c", path, "-o", o] + self.flags(tool, defs)
                if kind in ("lib", "driver"):
                    cmd += self.cov()
            fut = self.pool.submit(self._compile, cmd, o)
            self.objs[key] = fut
            return fut

    def _compile(self, cmd, o):
        r = sh(cmd)
        if r.returncode != 0:
            # one retry: the machine may have been out of memory
            r = sh(cmd)
        if r.returncode != 0:
            raise HarnessError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        return o

    def lib_paths(self, names):
        out = []
        for n in names:
            p = os.path.join(self.src, n)
            if os.path.exists(p):
                out.append(p)
        return out

    def all_lib(self):
        return sorted(glob.glob(os.path.join(self.src, "**", "*.cpp"), recursive=True))

    def part(self, part, tool):
        """Compiles and links the binary of one part; returns its path."""
        defs = list(part.get("defs", ()))
        libs = self.lib_paths(part.get("libs", ()))
        futs = [self.obj(os.path.join(HERE, "harness", part["driver"]), tool, "driver", defs),
                self.obj(os.path.join(HERE, "harness", "common", "sched.cpp"), "plain", "sched")]
        futs += [self.obj(os.path.join(HERE, "harness", x), tool, "driver", defs) for x in part.get("extra", ())]
        if part.get("log", True):
            futs.append(self.obj(os.path.join(HERE, "stub", "FastDdsLog.cpp"), tool, "stub"))
        futs += [self.obj(p, tool, "lib", part.get("libdefs", ())) for p in libs]
        exe = os.path.join(self.out, "%s_%s" % (part["name"], tool))

        def link(objs, gc=False):
            cmd = ([CXX, "-pthread", "-fuse-ld=lld", "-o", exe] + SAN[tool] + objs
                   + ["-Wl,--wrap=" + w for w in WRAPS + part.get("wraps", [])] + part.get("link", []))
            return sh(cmd)
        return exe, futs, link, libs, tool, part

    def finish(self, item):
        exe, futs, link, libs, tool, part = item
        objs = [f.result() for f in futs]
        r = link(objs)
        if r.returncode != 0 and "undefined symbol" in r.stdout:
            # The library has been laid out differently: take all of it, as an archive
            if os.environ.get("VF_DEBUG"):
                print("fallback:", re.findall(r"undefined symbol: .*", r.stdout)[:5])
            extra = []
            for p in self.all_lib():
                if p not in libs:
                    extra.append(self.obj(p, tool, "lib", part.get("libdefs", ())))
            ok = []
            for f in extra:
                try:
                    ok.append(f.result())
                except HarnessError:
                    pass
            ar = exe + ".a"
            if os.path.exists(ar):
                os.unlink(ar)
            sh(["ar", "rcs", ar] + ok)
            r = link(objs + [ar])
        if r.returncode != 0:
            raise HarnessError("link failed: " + r.stdout[-4000:])
        return exe


# ---------------------------------------------------------------- reports

FRAME = re.compile(r"^\s+#(\d+) (?:0x[0-9a-f]+ (?:in )?)?(.*?)(?: (/[^ ]*|[^ /]*\.[a-z]+:\d+[^ ]*|\([^)]*\).*))?$")


def clean_fn(f):
    """Function name without template arguments, parameters and return type."""
    out, depth = [], 0
    f = f.replace("operator<<", "operator-shl").replace("operator->", "operator-arrow")
    f = f.replace("operator()", "operator-call").replace("operator<", "operator-lt").replace("(anonymous namespace)", "anon")
    for c in f:
        if c == "<":
            depth += 1
        elif c == ">":
            depth = max(0, depth - 1)
        elif depth == 0:
            if c == "(":
                break
            out.append(c)
    s = "".join(out).strip()
    s = s.split(" ")[-1] if s else s
    return s.replace("eprosima::utils::", "").strip("'{} ")


def frames_of(block, repo):
    """List of stacks; each is a list of (function, location)."""
    stacks, cur = [], None
    for line in block.splitlines():
        m = re.match(r"^\s+#(\d+) (?:0x[0-9a-f]+ )?(?:in )?(.*)$", line)
        if m:
            if m.group(1) == "0":
                cur = []
                stacks.append(cur)
            if cur is not None:
                rest = m.group(2)
                k = re.search(r" (/[^ ]+|\S+\.(?:cpp|hpp|ipp|h|c|py|S)(?::\d+)*)( \(.*\))?$", rest)
                if k:
                    cur.append((clean_fn(rest[:k.start()]), k.group(1)))
                else:
                    cur.append((clean_fn(re.sub(r" \(.*\)$", "", rest)), ""))
    return stacks


def top(stack, repo):
    for fn, loc in stack:
        if loc.startswith(repo + "/") or "/cpp_utils/" in loc or "filewatch" in loc.lower():
            return fn
    for fn, loc in stack:
        if "/harness/" in loc or loc.startswith(HERE):
            return "harness:" + fn
    return stack[0][0] if stack else "?"


def parse_san(text, repo):
    """[(key, text)] of all sanitizer reports in a log"""
    res = []
    for b in re.split(r"(?m)^={18,}\s*$", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", b)
        if m:
            st = frames_of(b, repo)
            names = sorted({top(s, repo) for s in st[:2]}) if "race" in m.group(1) or "mutex" in m.group(1) \
                else [top(st[0], repo)] if st else ["?"]
            res.append(("tsan:%s:%s" % (m.group(1).strip(), "~".join(names)), b))
            continue
        m = re.search(r"ERROR: ThreadSanitizer: (\S+)", b)
        if m:
            st = frames_of(b, repo)
            res.append(("tsan:%s:%s" % (m.group(1), top(st[0], repo) if st else "?"), b))
            continue
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", b)
        if m:
            kind = m.group(1)
            k = re.match(r"([A-Za-z-]+)(?: on| \(|:|$)", kind)
            kind = k.group(1) if k else kind.split(" on ")[0][:40]
            st = frames_of(b, repo)
            res.append(("asan:%s:%s" % (kind, top(st[0], repo) if st else "?"), b))
    for m in re.finditer(r"(?m)^(\S+?):(\d+):\d+: runtime error: (.*)$", text):
        msg = re.sub(r"0x[0-9a-f]+|-?[0-9.]+(e[+-]?\d+)?", "N", m.group(3))
        msg = re.sub(r"'[^']*'", "T", msg)
        rest = text[m.end():m.end() + 6000]
        st = frames_of(rest, repo)
        fn = top(st[0], repo) if st else "?"
        res.append(("ubsan:%s:%s:%s" % (os.path.basename(m.group(1)), fn, msg[:60].strip()), text[m.start():m.end() + 3000]))
    return res


# ---------------------------------------------------------------- running

class Result:
    def __init__(self):
        self.viol = {}       # key -> dict(scenario, detail, report, tool, part, n)
        self.stats = {}
        self.seen = {}
        self.samples = []
        self.inconclusive = []
        self.errors = []
        self.lock = threading.Lock()

    def add(self, key, scenario, detail, part, tool, report=""):
        with self.lock:
            v = self.viol.setdefault(key, dict(scenario=scenario, detail=detail, report=report[:20000], tool=tool,
                                               part=part["name"], n=0))
            v["n"] += 1


SOFT = ("slow-", "hang-live")


class Watch:
    """Once a violation that is not listed is certain, the rest of the run gets a short time only."""
    GRACE = 12

    def __init__(self, known):
        self.known, self.deadline = known, None

    def listed(self, key):
        return any(fnmatch.fnmatchcase(key, p) for k in self.known for p in k["keys"])

    def found(self, key):
        if not key.startswith(SOFT) and not self.listed(key) and self.deadline is None:
            self.deadline = time.time() + self.GRACE

    def __call__(self, out, pos, decide=None):
        try:
            with open(out, errors="replace") as f:
                f.seek(pos)
                text = f.read()
        except OSError:
            return pos
        for ln in text.splitlines():
            if ln.startswith("VIOL ") and ln.count(" @@ ") >= 2:
                key, sc = ln[5:].split(" @@ ", 2)[:2]
                if key.startswith(SOFT) and decide is not None and not self.expired():
                    if decide(key, sc) and not self.listed(key) and self.deadline is None:
                        self.deadline = time.time() + self.GRACE
                self.found(key)
        k = text.rfind("\n")
        return pos + len(text[:k + 1].encode(errors="replace"))

    def expired(self):
        return self.deadline is not None and time.time() > self.deadline


def run_once(exe, part, tool, args, out, logbase, timeout, tmp, watch=None, decide=None):
    env = dict(os.environ)
    for k in list(env):
        if k.endswith("SAN_OPTIONS"):
            del env[k]
    common = "log_path=%s:handle_abort=1:symbolize=1:external_symbolizer_path=/usr/bin/llvm-symbolizer" % logbase
    env["ASAN_OPTIONS"] = common + ":detect_leaks=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=1:quarantine_size_mb=32"
    env["UBSAN_OPTIONS"] = common + ":print_stacktrace=1"
    env["TSAN_OPTIONS"] = common + ":halt_on_error=0:exitcode=0:detect_deadlocks=0:report_thread_leaks=0:history_size=4:suppressions=" + \
        os.path.join(HERE, "harness", "common", "tsan.supp")
    env["VF_TMP"] = tmp
    env["TZ"] = part.get("tz", "UTC")
    env.pop("LC_ALL", None)
    env["LANG"] = "C.UTF-8"
    env.update(part.get("env", {}))
    cmd = (exe if isinstance(exe, list) else [exe]) + args + ["--out", out, "--tool", tool]
    p = subprocess.Popen(cmd, env=env, cwd=tmp, stdin=subprocess.DEVNULL,
                         stdout=open(out + ".stdout", "ab"), stderr=open(out + ".stderr", "ab"), start_new_session=True)
    t0, to, rc, pos = time.time(), False, None, 0
    while rc is None:
        try:
            rc = p.wait(timeout=1)
        except subprocess.TimeoutExpired:
            if time.time() - t0 > timeout:
                to, rc = True, -9
            elif watch is not None:
                pos = watch(out, pos, decide)
                if watch.expired():
                    to, rc = True, -9
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    return rc, to


def read_out(path):
    try:
        with open(path, errors="replace") as f:
            return f.read().splitlines()
    except OSError:
        return []


def san_logs(logbase):
    text = ""
    for f in sorted(glob.glob(logbase + ".*")):
        with open(f, errors="replace") as fh:
            text += fh.read()
        os.unlink(f)
    return text


def run_shard(exe, part, tool, shard, shards, seed, tier, res, tmpbase, repo, watch):
    tmp = os.path.join(tmpbase, "%s_%s_%d" % (part["name"], tool, shard))
    os.makedirs(tmp, exist_ok=True)
    out = os.path.join(tmp, "out.txt")
    log = os.path.join(tmp, "san")
    resume, restarts = 0, 0
    limit = part.get("limit", 420) * (12 if tier == "thorough" else 1)
    t0 = time.time()
    decided = {}                # slow-* violations of this shard: whether they happened again

    def decide(key, sc):
        with res.lock:
            known_already = key in res.viol
        if (key, sc) not in decided:
            if watch.expired():
                return known_already
            # once a kind of violation is certain, or has turned out three times to be a slow machine, do not ask again
            undone = sum(1 for (k, _), v in decided.items() if k == key and not v)
            decided[key, sc] = known_already or (undone < 3 and confirm(exe, part, tool, sc, key, tmpbase, res, repo))
        return decided[key, sc]

    while True:
        if watch.expired():
            return
        if os.path.exists(out):
            os.unlink(out)
        args = ["--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (shard, shards), "--resume", str(resume)]
        rc, to = run_once(exe, part, tool, args, out, log, max(20, limit - (time.time() - t0)), tmp, watch, decide)
        lines = read_out(out)
        last, last_id, done, hang, sans = resume, "?", False, None, []
        for ln in lines:
            if ln.startswith("AT "):
                a = ln.split(" ", 2)
                last, last_id = int(a[1]), a[2]
            elif ln.startswith("VIOL "):
                key, sc, det = (ln[5:].split(" @@ ", 2) + ["", ""])[:3]
                if key.startswith(SOFT):
                    if not decide(key, sc):
                        continue
                res.add(key, sc, det, part, tool)
                watch.found(key)
            elif ln.startswith("STAT "):
                a = ln[5:].rsplit(" ", 1)
                with res.lock:
                    res.stats[a[0]] = res.stats.get(a[0], 0) + int(a[1])
            elif ln.startswith("SEEN "):
                a = ln[5:].split(" ")
                with res.lock:
                    res.seen.setdefault(a[0], set()).update(a[1:])
            elif ln.startswith("SAMPLE "):
                with res.lock:
                    if len(res.samples) < 12:
                        res.samples.append(ln[7:])
            elif ln.startswith("SAN "):
                sans.append(ln[4:])
            elif ln.startswith("HANG "):
                hang = ln.split(" ", 2)[1:]
            elif ln == "DONE":
                done = True
        text = san_logs(log)
        reps = parse_san(text, repo)
        for i, (key, block) in enumerate(reps):
            res.add(key, sans[i] if i < len(sans) else last_id, block.strip().splitlines()[0][:300] if block.strip() else "", part, tool, block)
            watch.found(key)
        if done and rc in (0, 66):
            return
        # not finished: find out why
        if hang:
            name = hang[1].split("|")[0]
            if hang[0] == "dead":
                res.add("hang:" + name, hang[1], "all threads blocked for ever", part, tool)
            elif confirm(exe, part, tool, hang[1], "hang-live", tmpbase, res, repo):
                res.add("hang:" + name, hang[1], "did not finish (again in a second run)", part, tool)
        elif to and watch.expired():
            return
        elif to:
            with res.lock:
                res.inconclusive.append("%s/%s shard %d: time limit at %s" % (part["name"], tool, shard, last_id))
            return
        elif rc == -9:
            with res.lock:
                res.errors.append("%s/%s shard %d was killed (out of memory?) at %s" % (part["name"], tool, shard, last_id))
            if restarts >= 1:
                return
        elif not reps:
            err = ""
            try:
                err = open(out + ".stderr", errors="replace").read()[-1500:]
            except OSError:
                pass
            res.add("crash:%s:%s" % (rc, last_id.split("|")[0]), last_id, "process ended with %s: %s" % (rc, err[-400:]), part, tool, err)
            watch.found("crash")
        if hang and ("hang:" + hang[1].split("|")[0]) in res.viol:
            watch.found("hang:" + hang[1].split("|")[0])
        restarts += 1
        if restarts > part.get("max_restarts", 3):
            return
        resume = last


def confirm(exe, part, tool, scenario, key, tmpbase, res, repo):
    """Runs the scenario again, several times: a slow machine is not a violation."""
    tmp = tempfile.mkdtemp(dir=tmpbase)
    out = os.path.join(tmp, "out.txt")
    rc, to = run_once(exe, part, tool, ["--seed", "1", "--only", scenario, "--repeat", "6"], out,
                      os.path.join(tmp, "san"), 200, tmp)
    lines = read_out(out)
    again = any(ln.startswith("VIOL " + key) for ln in lines) or any(ln.startswith("HANG") for ln in lines) or to
    if not again:
        with res.lock:
            res.inconclusive.append("%s at %s did not happen again" % (key, scenario))
    return again


def load_known(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [k for k in json.load(fh).get("known", []) if k["property"] == pid]


def build_and_run(pid, tier, seed, repo, keep=False):
    spec = SPECS[pid]
    work = os.path.join(HERE, ".build", pid + "-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = Result()
    known = load_known(pid)
    t0 = time.time()
    try:
        b = Builder(repo, os.path.join(work, "o"), spec)
        tmpbase = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir="/tmp")
        try:
            items = []
            for part in spec["parts"]:
                if part.get("thorough_only") and tier != "thorough":
                    continue
                if "py" in part:
                    items.append((part, "py", None))
                    continue
                for tool in part.get("tools", ["asan", "tsan"]):
                    items.append((part, tool, b.part(part, tool)))
            runs = cf.ThreadPoolExecutor(part_workers(spec))
            futs, watch = [], Watch(known)
            errs = []
            for part, tool, it in items:
                try:
                    exe = b.finish(it) if it is not None else \
                        [part.get("python", "python3"), os.path.join(HERE, "harness", part["py"]), "--repo", repo]
                except HarnessError as e:
                    key = next((k for rx, k in part.get("build_viol", ()) if re.search(rx, str(e))), None)
                    if not key and not_compiled(str(e)):
                        key = "does-not-compile"
                    if key:
                        res.add(key, "build", str(e)[-1500:], part, tool)
                    else:
                        errs.append(str(e))
                    continue
                n = part.get("shards", 4)
                for s in range(n):
                    futs.append(runs.submit(run_shard, exe, part, tool, s, n, seed, tier, res, tmpbase, repo, watch))
            t_build = time.time() - t0
            for f in futs:
                f.result()
            if errs:
                res.errors += errs
        finally:
            if not keep:
                shutil.rmtree(tmpbase, ignore_errors=True)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    return spec, res, known, t_build, time.time() - t0


def not_compiled(text):
    """Whether a program that uses the library as it is documented is refused by the compiler (and not that the compiler
    failed, or that the stand-in of Fast DDS lacks something)."""
    return bool(re.search(r"-c %s/harness/[a-z0-9_]+\.cpp " % re.escape(HERE), text) and re.search(r":\d+:\d+: error: ", text)
                and "fastdds" not in re.sub(r"^.*?\n", "", text, 1) and "file not found" not in text)


def part_workers(spec):
    return spec.get("workers", NCPU)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="only checks that the tools are there")
    a = ap.parse_args()
    if a.selftest:
        missing = [t for t in ("clang++", "git") if not shutil.which(t)]
        print("missing: " + ", ".join(missing) if missing else "ready")
        sys.exit(2 if missing else 0)
    if a.replay:
        return replay(a)
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED") or "1")
        except ValueError:
            seed = 1
    pid = a.id
    tier = "thorough" if a.tier == "thorough" else "quick"
    spec, res, known, t_build, wall = build_and_run(pid, tier, seed, os.path.abspath(a.repo), a.keep)

    def listed(key):
        for k in known:
            if any(fnmatch.fnmatchcase(key, pat) for pat in k["keys"]):
                return k
        return None
    new, old = {}, {}
    for key, v in res.viol.items():
        k = listed(key)
        (old if k else new)[key] = v
    evals = sum(res.stats.get(n, 0) for n in spec["evaluations"])
    distinct = sum(len(res.seen.get(n, ())) for n in spec["distinct"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=spec["rule"],
                            samples=(res.samples or ["none"])[:12],
                            observed={k: v for k, v in sorted(res.stats.items())},
                            distinct_sets={k: len(v) for k, v in sorted(res.seen.items())},
                            inconclusive=res.inconclusive[:20], build_s=round(t_build, 1)),
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        n = sum(v["n"] for key, v in old.items() if listed(key) is k)
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (pid, k["what"], n))
    if new:
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (key, v) in enumerate(sorted(new.items())):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump(dict(property=pid, key=key, seed=seed, tier=tier, **v), f, indent=1)
            print("  %s [%s] %s: %s" % (key, v["tool"], v["scenario"][:160], v["detail"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for e in res.errors:
        print("ERROR:", e)
    if res.errors:
        return 2
    # something must have been observed
    floor = spec.get("min_evaluations", 1)
    if evals < floor or distinct < spec.get("min_distinct", 1):
        print("ERROR: observed too little: %d evaluations, %d distinct" % (evals, distinct))
        return 2
    print("OK %s: %d evaluations, %d distinct, %.1f s (build %.1f s)%s" % (
        pid, evals, distinct, wall, t_build, "; inconclusive: %s" % res.inconclusive[:3] if res.inconclusive else ""))
    return 0


def replay(a):
    with open(a.replay) as f:
        v = json.load(f)
    spec = SPECS[v["property"]]
    part = [p for p in spec["parts"] if p["name"] == v["part"]][0]
    work = tempfile.mkdtemp(prefix="vf-replay-", dir="/tmp")
    try:
        b = Builder(os.path.abspath(a.repo), os.path.join(work, "o"), spec)
        exe = b.finish(b.part(part, v["tool"])) if "py" not in part else \
            [part.get("python", "python3"), os.path.join(HERE, "harness", part["py"]), "--repo", a.repo]
        out = os.path.join(work, "out.txt")
        rc, to = run_once(exe, part, v["tool"], ["--seed", str(v["seed"]), "--tier", v["tier"], "--only", v["scenario"], "--repeat", "10"],
                          out, os.path.join(work, "san"), 300, work)
        text = san_logs(os.path.join(work, "san"))
        print("\n".join(ln for ln in read_out(out) if ln.startswith(("VIOL", "HANG"))))
        print(text[:8000])
        bad = rc != 0 or to or text or any(ln.startswith(("VIOL", "HANG")) for ln in read_out(out))
        print("reproduced" if bad else "not reproduced in 10 runs")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("ERROR:", e)
        sys.exit(2)
