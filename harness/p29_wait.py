"""P29: the Python wait handlers and timer, under delays injected at lines of their code and of threading.Condition."""
import itertools
import sys
import threading
import time
sys.path.insert(0, __file__.rsplit("/", 1)[0] + "/common")
from vf import V

v = V()
sys.path.insert(0, v.repo + "/py_utils")
sys.dont_write_bytecode = True
from py_utils.wait.WaitHandler import WaitHandler, AwakeReason
from py_utils.wait.BooleanWaitHandler import BooleanWaitHandler
from py_utils.wait.IntWaitHandler import IntWaitHandler
from py_utils.time.Timer import Timer

DIS, OUT, MET = AwakeReason.disabled, AwakeReason.timeout, AwakeReason.condition_met
COND = {c.co_filename for c in [threading.Condition.wait.__code__]}
CFUN = {"wait", "wait_for", "notify", "notify_all"}


# ------------------------------------------------------------ delays
class Trace:
    """Counts the lines that each role runs in the code under test and sleeps at the planned ones."""
    def __init__(self, plan):
        self.plan, self.idx, self.last, self.h, self.switches = plan, {}, None, 0, 0

    def wants(self, code):
        f = code.co_filename
        return "/py_utils/py_utils/" in f or (f in COND and code.co_name in CFUN)

    def run(self, role, fn):
        def local(frame, event, arg):
            if event == "line":
                k = self.idx[role] = self.idx.get(role, 0) + 1
                if self.last != role:
                    self.last = role
                    self.switches += 1
                    self.h = hash((self.h, role, frame.f_code.co_name, frame.f_lineno))
                d = self.plan.get((role, k))
                if d:
                    time.sleep(d)
            return local

        def glob(frame, event, arg):
            return local if self.wants(frame.f_code) else None
        sys.settrace(glob)
        try:
            fn()
        finally:
            sys.settrace(None)


# ------------------------------------------------------------ histories
class History:
    def __init__(self):
        self.lock, self.ops = threading.Lock(), []

    def do(self, name, arg, fn):
        t0 = time.monotonic_ns()
        r = fn()
        t1 = time.monotonic_ns()
        with self.lock:
            self.ops.append((t0, t1, name, arg, r))
        return r


def step(state, name, arg, r):
    """New state, or None if the result is not possible there."""
    val, en = state
    if name == "set":
        return (arg, en)
    if name == "inc":
        return (val + arg, en)
    if name == "enable":
        return (val, True)
    if name in ("disable", "blocking_disable"):
        return (val, False)
    if name == "get":
        return state if r == val and type(r) is type(val) else None
    if name == "enabled":
        return state if r == en else None
    pred, _ = arg
    want = DIS if not en else MET if pred(val) else OUT
    return state if r is want else None


def linearizable(ops, init):
    ops = sorted(ops, key=lambda o: o[0])
    n, dead = len(ops), set()

    def go(done, state):
        if done == (1 << n) - 1:
            return True
        if (done, state) in dead:
            return False
        horizon = min(o[1] for i, o in enumerate(ops) if not done >> i & 1)
        for i, o in enumerate(ops):
            if done >> i & 1 or o[0] > horizon:
                continue
            s = step(state, *o[2:])
            if s is not None and go(done | 1 << i, s):
                return True
        dead.add((done, state))
        return False
    return go(0, init)


def show(ops):
    t = min(o[0] for o in ops)
    return "; ".join("[%d,%d]us %s%s=%s" % ((o[0] - t) // 1000, (o[1] - t) // 1000, o[2],
                                           "(%s, timeout %s)" % (o[3][0].desc, o[3][1]) if o[2] == "wait" else "(%s)" % (o[3],), o[4]) for o in sorted(ops, key=lambda o: o[0]))


class Pred:
    def __init__(self, kind, x):
        self.kind, self.x, self.desc = kind, x, "%s %s" % (kind, x)

    def __call__(self, val):
        k, x = self.kind, self.x
        return val == x if k == "eq" else val >= x if k == "ge" else val > x if k == "gt" else bool(val) if k == "true" else False


# ------------------------------------------------------------ random programs
def program(r):
    kind = r.choice(["bool", "int", "int", "base"])
    p = dict(kind=kind, enabled=r.random() < 0.85, init=(r.random() < 0.3) if kind == "bool" else r.randrange(3), waiters=[], changers=[])
    for _ in range(r.choice([1, 1, 2, 3])):
        ws = []
        for _ in range(r.choice([1, 1, 2])):
            if kind == "bool":
                pr = Pred("true", "")
            elif kind == "int":
                pr = Pred(r.choice(["eq", "ge", "gt"]), r.randrange(4))
            else:
                pr = Pred(r.choice(["eq", "ge", "never"]), r.randrange(4))
            ws.append((pr, r.choice([None, None, None, 60, 0, 0.001, 0.003, -1])))
        p["waiters"].append(ws)
    for _ in range(r.choice([1, 1, 2])):
        ops = []
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < 0.55:
                if kind == "int" and r.random() < 0.6:
                    ops.append(("inc", r.choice([1, 1, 1, 2, -1, -2])))
                else:
                    ops.append(("set", r.random() < 0.7 if kind == "bool" else r.randrange(4)))
            elif x < 0.63:
                ops.append(("get", None))
            elif x < 0.7:
                ops.append(("enabled", None))
            elif x < 0.85:
                ops.append(("disable", None))
            elif x < 0.93:
                ops.append(("enable", None))
            else:
                ops.append(("blocking_disable", None))
        p["changers"].append(ops)
    if any(o[0] == "blocking_disable" for c in p["changers"] for o in c):       # enabling meanwhile is not specified
        p["changers"] = [[o for o in c if o[0] != "enable"] for c in p["changers"]]
    return p


def make(p):
    if p["kind"] == "bool":
        return BooleanWaitHandler(p["enabled"], p["init"])
    if p["kind"] == "int":
        return IntWaitHandler(p["enabled"], p["init"])
    return WaitHandler(p["enabled"], p["init"])


def do_wait(w, kind, pr, to):
    if kind == "bool":
        return w.wait(timeout=to) if to is not None else w.wait()
    if kind == "int":
        return {"eq": w.wait_equal, "ge": w.wait_greater_equal, "gt": w.wait_greater}[pr.kind](pr.x, to)
    if pr.kind == "never":
        return w.wait(timeout=to)
    return w.wait(pr, to)


def do_op(w, kind, name, arg):
    if name == "set":
        if kind == "bool":
            return w.open() if arg else w.close()
        return w.set_value(arg)
    if name == "inc":
        if arg == 1:
            return w.increase()
        return w.increase(arg) if arg > 0 else (w.decrease() if arg == -1 else w.decrease(-arg))
    return {"get": w.get_value, "enabled": w.enabled, "disable": w.disable, "enable": w.enable, "blocking_disable": w.blocking_disable}[name]()


def execute(p, plan, jitter):
    w, h, tr = make(p), History(), Trace(plan)
    waits = [[] for _ in p["waiters"]]
    nw = len(p["waiters"])
    start = threading.Barrier(nw + len(p["changers"]))
    cur = [None] * nw                                                # what each waiter waits for, when without an end
    errors = []

    def guard(role, fn):
        start.wait()
        if jitter[role % len(jitter)]:
            time.sleep(jitter[role % len(jitter)])
        try:
            tr.run(role, fn)
        except Exception as e:                                       # noqa
            errors.append("%s: %s" % (type(e).__name__, e))

    def waiter(i):
        for k, (pr, to) in enumerate(p["waiters"][i]):
            cur[i] = (pr, to)
            t0 = time.monotonic()
            r = h.do("wait", (pr, to), lambda: do_wait(w, p["kind"], pr, to))
            el = time.monotonic() - t0
            v.check(r is not OUT or (to is not None and el >= to), "early-timeout", lambda: "waiting %s s ended with a timeout after %s s" % (to, el))
            v.check(isinstance(r, AwakeReason), "no-reason", lambda: "waiting returned %r" % (r,))
            v.count("wakes:" + getattr(r, "name", "none"))
        cur[i] = None

    def changer(i):
        for name, arg in p["changers"][i]:
            h.do(name, arg, lambda: do_op(w, p["kind"], name, arg))
    tw = [threading.Thread(target=guard, args=(i, lambda i=i: waiter(i)), daemon=True) for i in range(nw)]
    tc = [threading.Thread(target=guard, args=(nw + i, lambda i=i: changer(i)), daemon=True) for i in range(len(p["changers"]))]
    for t in tw + tc:
        t.start()
    for t in tc:
        t.join()                                                     # blocking for ever is reported by the watchdog
    val = h.do("get", None, w.get_value)
    en = h.do("enabled", None, w.enabled)
    # Those whose condition holds, and stays so, must end by themselves (then perhaps wait for something else)
    end = time.monotonic() + 8
    for i, t in enumerate(tw):
        while t.is_alive():
            c = cur[i]
            if c is not None and en and c[1] in (None, 60) and not c[0](val):
                time.sleep(0.0005)
                if cur[i] is c:
                    break
                continue
            t.join(0.01)
            if time.monotonic() > end:
                v.viol("slow-not-woken", "value %r, %s, a thread still waits for %s with timeout %s: %s" % (val, "enabled" if en else "disabled", c and c[0].desc, c and c[1], show(h.ops)))
                v.finish()
                sys.stdout.flush()
                v._hang()
    if any(t.is_alive() for t in tw):
        h.do("disable", None, w.disable)
        v.count("released_by_disable")
        for t in tw:
            t.join()
    v.check(not errors, "exception", lambda: "%s in %s" % (errors, show(h.ops)))
    v.check(linearizable(h.ops, (p["init"], p["enabled"])), "impossible-results", lambda: "handler %s, initially %s and %s: %s" % (p["kind"], p["init"], p["enabled"], show(h.ops)))
    v.count("steps", len(h.ops))
    v.count("executions")
    if tr.switches > 2:
        v.seen("interleavings", tr.h)
    return tr.idx


def schedules(r):
    p = program(r)
    idx = execute(p, {}, [0])
    points = [(role, k) for role, n in idx.items() for k in range(1, min(n, 50) + 1)]
    r.shuffle(points)
    for q in points[:40]:
        execute(p, {q: 0.001}, [0])
    for _ in range(12):
        plan = {q: r.choice([0.0003, 0.001, 0.003]) for q in r.sample(points, min(len(points), r.randrange(1, 4)))} if points else {}
        execute(p, plan, [r.choice([0, 0, 0.0005, 0.001, 0.002]) for _ in range(5)])


def sequential(r):
    """One thread; waits that must end at once."""
    for _ in range(25):
        p = program(r)
        w = make(p)
        state = (p["init"], p["enabled"])
        h = History()
        hist = []
        for _ in range(r.randrange(1, 15)):
            if r.random() < 0.4:
                pr, _ = r.choice(r.choice(p["waiters"]))
                to = r.choice([0, -1, 0.0005])
                if not state[1] or pr(state[0]):
                    to = r.choice([None, 0, 60])
                t0 = time.monotonic()
                op = ("wait", (pr, to), do_wait(w, p["kind"], pr, to))
                el = time.monotonic() - t0
                v.check(op[2] is not OUT or el >= to, "early-timeout", lambda: "after %s s instead of %s" % (el, to))
                hist.append((op[0], pr.desc, to, str(op[2])))
            else:
                c = r.choice(p["changers"])
                name, arg = r.choice(c) if c and r.random() < 0.7 else (r.choice(["enable", "disable", "get", "enabled", "blocking_disable"]), None)
                op = (name, arg, do_op(w, p["kind"], name, arg))
                hist.append(op)
            s = step(state, *op)
            v.check(s is not None, "wrong-result", lambda: "%s handler, initially %s: %s at state %s" % (p["kind"], (p["init"], p["enabled"]), hist, state))
            if s is None:
                break
            state = s
            v.count("steps")
        v.seen("sequences", (p["kind"], p["init"], p["enabled"], hist))


def blocking(r):
    """Whoever was waiting when blocking_disable was called has gone when it returns: enabling again does not catch them."""
    for _ in range(6):
        w = r.choice([WaitHandler, IntWaitHandler, BooleanWaitHandler])(True, 0)
        n = r.randrange(1, 5)
        inside = [threading.Event() for _ in range(n)]
        res = [None] * n
        plan = {(i, r.randrange(1, 40)): r.choice([0.001, 0.004]) for i in r.sample(range(n + 1), r.randrange(0, n + 1))}
        tr = Trace(plan)

        def waiter(i):
            def pred(_):
                inside[i].set()
                return False
            tr.run(i, lambda: res.__setitem__(i, WaitHandler.wait(w, pred, 60 if i % 2 else None)))
        ts = [threading.Thread(target=waiter, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for e in inside:
            e.wait()
        m = r.choice([1, 1, 2])

        def both():
            w.blocking_disable()
        if m == 2:
            others = [threading.Thread(target=both, daemon=True) for _ in range(2)]
            for t in others:
                t.start()
            for t in others:
                t.join()
        else:
            tr.run(n, both)
        v.check(w.enabled() is False, "still-enabled", "enabled after blocking_disable")
        w.enable()
        for t in ts:
            t.join()
        v.check(all(x is DIS for x in res), "wrong-result", lambda: "threads that waited while blocking_disable was called got %s" % (res,))
        # and it can be used again, also to disable when nobody waits
        v.check(WaitHandler.wait(w, lambda _: True) is MET, "wrong-result", "after disabling and enabling")
        w.blocking_disable()
        w.blocking_disable()
        v.check(WaitHandler.wait(w, lambda _: True) is DIS, "wrong-result", "when disabled")
        v.count("steps", n + 4)
        v.count("executions")
        v.seen("interleavings", tr.h)


def wakeups(r):
    """Threads that surely wait, and one change that makes the condition of some of them true (or disables): they end, the others do not."""
    for _ in range(8):
        kind = r.choice(["bool", "int", "int", "base"])
        init = False if kind == "bool" else r.randrange(-2, 3)
        w = make(dict(kind=kind, enabled=True, init=init))
        name = r.choice(["set", "set", "inc", "inc", "disable"]) if kind == "int" else r.choice(["set", "set", "disable"])
        arg = None if name == "disable" else (True if kind == "bool" else r.choice([-3, -2, -1, 1, 2, 3]))
        if kind != "bool" and name == "set" and arg == init:
            arg += 1
        state = step((init, True), name, arg, None)
        preds = []
        while len(preds) < r.choice([1, 2, 3]):
            pr = Pred("true", "") if kind == "bool" else Pred(r.choice(["eq", "ge", "gt"]), r.choice([state[0], state[0], r.randrange(-5, 6)]))
            if not pr(init):
                preds.append(pr)
            elif r.random() < 0.3:
                preds.append(Pred("never", 0) if kind == "base" else pr.__class__("eq", init + 7) if kind == "int" else Pred("true", ""))
                if preds[-1](init):
                    preds.pop()
        res = [None] * len(preds)
        tos = [r.choice([None, 60]) for _ in preds]
        ts = [threading.Thread(target=lambda i=i: res.__setitem__(i, do_wait(w, kind, preds[i], tos[i])), daemon=True) for i in range(len(preds))]
        for t in ts:
            t.start()
        time.sleep(r.choice([0.001, 0.003, 0.006]))                  # by then they wait, nearly always
        do_op(w, kind, name, arg)
        must = [i for i, pr in enumerate(preds) if not state[1] or pr(state[0])]
        for i in must:
            ts[i].join(8)
            if ts[i].is_alive():
                v.viol("slow-not-woken", "value %s, then %s(%s): a thread still waits for %s with timeout %s" % (init, name, arg, preds[i].desc, tos[i]))
                v.finish()
                v._hang()
            v.check(res[i] is (MET if state[1] else DIS), "wrong-result", lambda: "waiting for %s at %s ended with %s" % (preds[i].desc, state, res[i]))
        time.sleep(0.0005)
        for i in range(len(preds)):
            v.check(i in must or ts[i].is_alive(), "woken-for-nothing", lambda: "waiting for %s ended with %s at value %s" % (preds[i].desc, res[i], state[0]))
        w.disable()
        for t in ts:
            t.join()
        v.count("steps", len(preds) + 1)
        v.count("woken", len(must))
        v.seen("sequences", (kind, init, name, arg, [q.desc for q in preds], tos))


def crowd(r):
    """Very many threads that wait: one change ends all those that it concerns, and no other."""
    kind = r.choice(["bool", "int", "int", "base"])
    w = make(dict(kind=kind, enabled=True, init=False if kind == "bool" else 0))
    n = r.randrange(60, 250)
    name, arg = r.choice([("set", True if kind == "bool" else 3), ("set", True if kind == "bool" else 3), ("disable", None), ("blocking_disable", None)] + ([("inc", 1), ("inc", 3)] if kind == "int" else []))
    state = step((False if kind == "bool" else 0, True), name, arg, None)
    preds = [Pred("true", "") if kind == "bool" else Pred(r.choice(["eq", "ge", "ge"]), r.randrange(1, 5)) for _ in range(n)]
    res = [None] * n

    def waiter(i):
        res[i] = do_wait(w, kind, preds[i], None if i % 2 else 60)
    ts = [threading.Thread(target=waiter, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    time.sleep(r.choice([0.01, 0.05]))
    do_op(w, kind, name, arg)
    must = [i for i, pr in enumerate(preds) if not state[1] or pr(state[0])]
    end = time.monotonic() + 15
    for i in must:
        ts[i].join(max(0.01, end - time.monotonic()))
        if ts[i].is_alive():
            v.viol("slow-not-woken", "%s threads wait, then %s(%s): one still waits for %s" % (n, name, arg, preds[i].desc))
            v.finish()
            v._hang()
        v.check(res[i] is (MET if state[1] else DIS), "wrong-result", lambda: "waiting for %s at %s ended with %s" % (preds[i].desc, state, res[i]))
    for i in range(n):
        v.check(i in must or ts[i].is_alive(), "woken-for-nothing", lambda: "waiting for %s ended with %s at value %s" % (preds[i].desc, res[i], state[0]))
    w.disable()
    for t in ts:
        t.join()
    v.count("steps", n + 1)
    v.count("woken", len(must))


class Odd:
    """Cannot be compared, copied or told to be true."""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        raise TypeError("compared")

    __ne__ = __lt__ = __bool__ = __copy__ = __deepcopy__ = __eq__
    __hash__ = None


class Same:
    """Equal to everything."""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = None


def values(r):
    """Values of any kind: the very object that was set is given back and shown to the conditions, also one that was changed in place."""
    for _ in range(8):
        kind = r.randrange(5)
        first, second = {0: ([0], [0, 1]), 1: (Odd(0), Odd(1)), 2: (Same(0), Same(1)), 3: (1, 1.0), 4: (float("nan"), "nan")}[kind]
        if kind == 3 and r.random() < 0.5:
            first, second = second, True
        w = WaitHandler(r.random() < 0.9, first)
        v.check(w.get_value() is first, "value-changed", lambda: "the initial value is %r" % type(w.get_value()))
        w.enable()
        in_place = kind == 0 and r.random() < 0.6
        pred = {0: lambda x: len(x) == 2, 1: lambda x: x.n == 1, 2: lambda x: x.n == 1, 3: lambda x: type(x) is type(second), 4: lambda x: x == "nan"}[kind]
        n = r.randrange(1, 4)
        res, asked = [None] * n, [threading.Event() for _ in range(n)]

        def waiter(i):
            def p(x):
                asked[i].set()
                return pred(x)
            res[i] = w.wait(p) if i % 2 else w.wait(p, 60)
        ts = [threading.Thread(target=waiter, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for e in asked:
            e.wait()
        if r.random() < 0.5:
            time.sleep(0.002)
        if in_place:
            first.append(1)
            second = first
        w.set_value(second)
        for t in ts:
            t.join(8)
        left = [t for t in ts if t.is_alive()]
        v.check(not left, "slow-not-woken", lambda: "%d threads that wait for a value of kind %d%s still do after it was set" % (
                len(left), kind, " changed in place" if in_place else ""))
        if left:
            w.disable()
            continue
        v.check(all(x is MET for x in res), "wrong-result", lambda: "%s for a value of kind %d" % (res, kind))
        v.check(w.get_value() is second, "value-changed", lambda: "another object than the one set (kind %d)" % kind)
        # what a condition returns may be anything that is true or false
        for true in (1, "x", [0], 2.5):
            v.check(w.wait(lambda _: true, 60) is MET, "wrong-result", lambda: "a condition that returns %r" % (true,))
        for false in (0, "", [], None):
            v.check(w.wait(lambda _: false, 0) is OUT, "wrong-result", lambda: "a condition that returns %r" % (false,))
        v.count("steps", 10 + n)
        v.seen("sequences", ("values", kind, in_place, n))


def timeouts(r):
    """A wait ends soon after its timeout though the value changes all the time, and not before a long one; numbers of any size."""
    for rep in range(3):
        w = IntWaitHandler(True, 0)
        to = r.choice([0.02, 0.05, 0.1])
        n, stop, res = r.randrange(1, 4), threading.Event(), []

        def four():
            for f in (lambda: w.wait(timeout=to), lambda: w.wait_equal(-5, to), lambda: w.wait_greater(10 ** 30, to), lambda: w.wait_greater_equal(10 ** 30, timeout=to)):
                t0 = time.monotonic()
                res.append((f(), time.monotonic() - t0))
        ts = [threading.Thread(target=four, daemon=True) for _ in range(n)]

        def change():
            i = 0
            while not stop.is_set():
                i += 1
                (w.increase, w.set_value, w.increase, lambda _: w.decrease())[i % 4](i % 50 + 1)
                time.sleep(to / r.choice([4, 10, 20]))
        c = threading.Thread(target=change, daemon=True)
        c.start()
        for t in ts:
            t.start()
        end = time.monotonic() + 10
        for t in ts:
            t.join(max(0.01, end - time.monotonic()))
        left = sum(t.is_alive() for t in ts)
        stop.set()
        c.join()
        v.check(left == 0, "slow-timeout", lambda: "%d waits with a timeout of %g s go on while the value changes" % (left, to))
        if left:
            w.disable()
            continue
        v.check(all(x is OUT and t >= to for x, t in res), "wrong-result", lambda: "waits of %g s while the value changes: %s" % (to, res))
        v.count("steps", len(res))
        v.seen("sequences", ("timeouts", to, n))
        # equal numbers that are different objects, and of any size
        for _ in range(20):
            k = r.choice([r.randrange(-10, 10), r.randrange(250, 2000), 2 ** 31 + r.randrange(-2, 3), -2 ** 63 + r.randrange(-2, 3), r.randrange(10 ** 40)])
            w = IntWaitHandler(True, k)
            d = r.choice([0, 1, 2 ** 32, 10 ** 20])
            w.increase(d)
            same = int(str(k + d))
            got = (w.wait_equal(same, 5), w.wait_greater_equal(same, 5), w.wait_greater(same - 1, 5), w.wait_equal(same + 1, 0), w.wait_greater(same, 0), w.wait_greater_equal(same + 1, 0))
            v.check(got == (MET, MET, MET, OUT, OUT, OUT), "wrong-result", lambda: "waits around %d at that value: %s" % (same, got))
            w.decrease(d)
            v.check(w.get_value() == k and w.wait_equal(int(str(k)), 5) is MET, "wrong-result", lambda: "value %d instead of %d" % (w.get_value(), k))
            v.count("steps", 7)
    # a very long timeout does not end early, and not at all when the value comes
    w = BooleanWaitHandler(True, False)
    res, to = [], r.choice([2 ** 31 / 1000 + 1, 2 ** 32, 10 ** 8, 1e9])
    ts = [threading.Thread(target=lambda: res.append(w.wait(to)), daemon=True) for _ in range(3)]
    for t in ts:
        t.start()
    time.sleep(0.05)
    v.check(not res, "wrong-result", lambda: "waits of %g s ended with %s" % (to, res))
    w.open()
    for t in ts:
        t.join(10)
    v.check(not any(t.is_alive() for t in ts), "slow-not-woken", "waits of %g s are not woken" % to)
    v.check(all(x is MET for x in res), "wrong-result", lambda: "waits of %g s: %s" % (to, res))


def failing(r):
    """A condition that raises an exception ends the wait with it and leaves the handler usable."""
    for _ in range(10):
        w = IntWaitHandler(True, r.randrange(3))
        n = r.randrange(0, 3)
        c = [n]

        def bad(val):
            c[0] -= 1
            if c[0] < 0:
                raise ValueError("from the condition")
            return False
        got = []

        def waiter():
            try:
                got.append(WaitHandler.wait(w, bad))
            except ValueError as e:
                got.append(str(e))
        t = threading.Thread(target=waiter, daemon=True)
        t.start()
        while t.is_alive():
            w.increase()
            time.sleep(0.0005)
        v.check(got == ["from the condition"], "exception-lost", lambda: "a condition that raised gave %s" % got)
        v.check(w.enabled() and w.wait_greater_equal(-1) is MET, "unusable", "after an exception of a condition")
        w.blocking_disable()
        v.check(not w.enabled(), "unusable", "after an exception of a condition")
        v.count("steps", 4)


def timer(r):
    for _ in range(6):
        a = time.monotonic()
        t = Timer()
        b = time.monotonic()
        for _ in range(r.randrange(1, 5)):
            if r.random() < 0.3:
                a = time.monotonic()
                t.reset()
                b = time.monotonic()
            time.sleep(r.choice([0, 0.0005, 0.002, 0.01]))
            c = time.monotonic()
            e = t.elapsed()
            d = time.monotonic()
            v.check(c - b - 0.002 <= e <= d - a + 0.002, "elapsed", lambda: "elapsed %s when between %s and %s" % (e, c - b, d - a))
            v.count("steps")


sys.setswitchinterval(1e-5)
v.batches("sequential", 120, sequential)
v.batches("blocking", 120, blocking, 20)
v.batches("wakeups", 200, wakeups, 30)
v.batches("crowd", 16, crowd, 60)
v.batches("values", 60, values, 30)
v.batches("timeouts", 24, timeouts, 60)
v.batches("failing", 40, failing, 20)
v.batches("timer", 40, timer)
v.batches("schedules", 480, schedules, 60, 8)
v.finish()
