"""P32: the Python logger and the debugging helpers, with their output captured."""
import gc
import io
import logging
import re
import sys
import threading
import time
import weakref
sys.path.insert(0, __file__.rsplit("/", 1)[0] + "/common")
from vf import V

v = V()
sys.path.insert(0, v.repo + "/py_utils")
sys.dont_write_bytecode = True


class Out(io.StringIO):
    """What the loggers print."""
    def take(self):
        s = self.getvalue()
        self.seek(0)
        self.truncate(0)
        return s


real, out = sys.stderr, Out()
sys.stderr = out
from py_utils.logging.log_utils import CustomLogger, logger as the_logger
from py_utils.debugging.debug_utils import debug_function_decorator, debug_object_introspection
sys.stderr = real
D, I, W, E, C = logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL
LEVELS = [D, I, W, E, C]
STAMP = r"\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3}\]"


def new_logger(*a, **k):
    sys.stderr = out
    try:
        return CustomLogger(*a, **k)
    finally:
        sys.stderr = real


def emit(log, level, text, how):
    if how == 0:
        log.log(level, text)
    elif how == 1:
        {D: log.debug, I: log.info, W: log.warning, E: log.error, C: log.critical}.get(level, lambda t: log.log(level, t))(text)
    else:
        log.log(level, "%s", text)


def levels(r):
    """Records are printed once when their level is at least the present one, whatever was asked before."""
    for _ in range(12):
        out.take()
        lvl, name = I, "GLOBAL_LOG"
        x = r.random()
        if x < 0.3:
            log = new_logger()
        elif x < 0.6:
            lvl = r.choice(LEVELS)
            log = new_logger(lvl)
        else:
            lvl, name = r.choice(LEVELS), r.choice(["NAME", "a.b", "x y"])
            log = new_logger(lvl, name) if r.random() < 0.5 else new_logger(log_level=lvl, logger_name=name)
        fmt, hist = None, [lvl]
        for n in range(r.randrange(1, 16)):
            x = r.random()
            if x < 0.15:
                lvl = r.choice(LEVELS + [D + 5, 1, C + 1, 75])
                log.set_log_level(lvl)
                hist.append(("level", lvl))
            elif x < 0.22:
                lvl = D
                log.activate_debug()
                hist.append("debug")
            elif x < 0.3:
                fmt = r.choice(["%(message)s", "%(levelname)s:%(message)s", "<%(name)s> %(message)s"])
                log.set_format(fmt)
                hist.append(("format", fmt))
            else:
                at = r.choice(LEVELS + LEVELS + [D - 1, I + 1, C + 1, C + 10, 1000, 1, 0])
                text = "m%d %s" % (n, r.choice(["", "text", "100%", "%s %d", "{}", "\u00f1", "x" * 500]))
                emit(log, at, text, r.randrange(3))
                got = out.take()
                ln = logging.getLevelName(at)
                want = at >= lvl
                hist.append((at, want))
                if not want:
                    v.check(got == "", "printed-below-level", lambda: "a record of level %s was printed at level %s as %r after %s" % (at, lvl, got, hist))
                else:
                    v.check(got != "", "not-printed", lambda: "a record of level %s was not printed at level %s after %s" % (at, lvl, hist))
                    v.check(got.count(text) <= 1, "printed-twice", lambda: "a record was printed as %r after %s" % (got, hist))
                    if got.count(text) == 1:
                        ok = (re.fullmatch(STAMP + re.escape("[%s][%s] %s\n" % (name, ln, text)), got) is not None) if fmt is None else got == fmt % dict(message=text, levelname=ln, name=name) + "\n"
                        v.check(ok, "wrong-format", lambda: "%r was printed with format %s after %s" % (got, fmt, hist))
                v.count("steps")
        v.seen("sequences", hist)


def threads(r):
    """Records of several threads, each printed once and whole."""
    for _ in range(3):
        out.take()
        log, n, m = new_logger(), r.randrange(2, 5), 25
        stop = threading.Event()

        def work(i):
            for k in range(m):
                log.info("<%d.%d>" % (i, k) + "y" * 50)
                log.debug("hidden")

        def change():
            while not stop.is_set():
                log.set_log_level(W)
                log.set_log_level(I)
                time.sleep(0)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        lines = out.take().splitlines()
        got = sorted(re.sub("^" + STAMP + r"\[GLOBAL_LOG\]\[INFO\] ", "", s) for s in lines)
        v.check(got == sorted("<%d.%d>" % (i, k) + "y" * 50 for i in range(n) for k in range(m)), "records-mixed", lambda: "%d lines of %d records, such as %r" % (len(got), n * m, got[:2]))
        v.count("steps", n * m)


class Own(Exception):
    pass


class Quiet:
    """An object that cannot be printed."""
    def __repr__(self):
        raise Own("no text")


class Listy(list):
    pass


def generator():
    yield 1
    yield 2


class Base(BaseException):
    pass


ERRORS = [Own, KeyboardInterrupt, SystemExit, StopIteration, AttributeError, TypeError, GeneratorExit, BaseException, Base, MemoryError, RecursionError, StopAsyncIteration, TimeoutError]


def argument(r):
    return r.choice([1, "s", None, (2, 3), "%d", [4], {}, {"a": [1]}, {1, 2}, Listy([5]), iter([1, 2]), generator(), bytearray(b"b"), object(), Own("x"), len,
                     map(str, [1, 2]), Quiet if r.random() < 0.8 else Quiet()])


def decorator(r):
    """A decorated function does what it did, once; in debug its calls are told."""
    for _ in range(15):
        debug = r.random() < 0.5
        the_logger.set_log_level(D if debug else r.choice([I, W, E]))
        out.take()
        calls = []
        fails = r.random() < 0.3
        error = r.choice(ERRORS)("from inside")
        res = r.choice([None, 0, False, "", [], "x", [1], object(), generator(), NotImplemented, Own("a result"), len])
        depth = r.choice([0, 0, 1, 2])

        def name_of_it(*a, **k):
            calls.append((a, k))
            if len(calls) <= depth:
                return f(*a, **k)
            if fails:
                raise error
            return res
        f = debug_function_decorator(name_of_it)
        v.check(not calls, "called-when-decorated", "the function was called")
        a = tuple(argument(r) for _ in range(r.randrange(4)))
        k = {n: argument(r) for n in r.sample(["a", "b", "func", "args", "kwargs", "self", "result"], r.randrange(4))}
        printed = not any(isinstance(x, Quiet) for x in list(a) + list(k.values()))
        told = (str(a), str(k)) if printed else None
        as_method = r.random() < 0.3
        sys.stderr = out if not printed else real
        try:
            if as_method:
                class Owner:
                    method = f
                owner = Owner()
                if "self" in k or "func" in k:
                    k.pop("self", None)
                told = (str((owner,) + a), str(k)) if printed else None
                a = (owner,) + a
                got = owner.method(*a[1:], **k)
            else:
                got = f(*a, **k)
            v.check(not fails, "exception-lost", "the exception of the function")
            v.check(got is res, "result", lambda: "%r instead of %r" % (got, res))
        except BaseException as e:
            v.check(fails and e is error, "exception", "an exception that is not that of the function: %r" % e)
        finally:
            sys.stderr = real
        v.check(len(calls) == 1 + depth, "arguments", lambda: "called %d times instead of %d" % (len(calls), 1 + depth))
        for ca, ck in calls:
            v.check(len(ca) == len(a) and all(x is y for x, y in zip(ca, a)) and ck.keys() == k.keys() and all(ck[n] is k[n] for n in k), "arguments",
                    "called with others than the very arguments given")
        for x in a + tuple(k.values()):
            if hasattr(x, "__next__"):
                v.check(next(x, None) in (1, "1") or sum(y is x for y in a + tuple(k.values())) > 1, "arguments", "an iterator was advanced")
        v.check(a[1:] == () or not isinstance(a[-1], Listy) or a[-1] == [5], "arguments", "a list was changed")
        text = out.take()
        if debug and (not printed or depth):
            pass
        elif debug:
            v.check(text.count("name_of_it") == (1 if fails else 2), "not-told", lambda: "the debug log of a function that %s is %r" % ("fails" if fails else "ends", text))
            v.check(told[0] in text and told[1] in text, "not-told", lambda: "arguments %s in %r" % (told, text))
        else:
            v.check(text == "", "told-without-debug", text)

        class Thing:
            def method_one(self):
                raise Own("called")

            def _two(self):
                pass
            attribute_three = 3
        out.take()
        debug_object_introspection(Thing())
        text = out.take()
        if debug:
            v.check("Thing" in text and "'method_one'" in text and "'_two'" in text and "'attribute_three'" not in text, "introspection", text)
        else:
            v.check(text == "", "told-without-debug", text)
        v.count("steps", 2)
        v.seen("sequences", (debug, fails, depth, as_method, [type(x).__name__ for x in a], [(n, type(x).__name__) for n, x in k.items()]))


class Slow(Out):
    """An output that other threads overtake."""
    def write(self, s):
        time.sleep(0)
        return super().write(s)

    def flush(self):
        time.sleep(0.0001)


def concurrent(r):
    """Several threads call one decorated function at once: each has its own result or exception."""
    the_logger.set_log_level(D if r.random() < 0.8 else I)
    debug = the_logger.level == D
    slow = Slow()
    old = the_logger._handler.setStream(slow) if hasattr(the_logger, "_handler") else None
    n, m = r.randrange(2, 6), 12
    seen, lock = [], threading.Lock()
    pause = [r.choice([0, 0, 0.0003]) for _ in range(n)]

    def told_function(i, k, what):
        with lock:
            seen.append((i, k))
        time.sleep(pause[i])
        if k % 5 == 4:
            raise Own("%d.%d" % (i, k))
        return what
    f = debug_function_decorator(told_function)
    start = threading.Barrier(n)

    def work(i):
        start.wait()
        for k in range(m):
            mine = object()
            try:
                got = f(i, k, what=mine) if k % 2 else f(i, k, mine)
                v.check(k % 5 != 4 and got is mine, "result", "a thread got the result of another call")
            except Own as e:
                v.check(k % 5 == 4 and str(e) == "%d.%d" % (i, k), "exception", lambda: "a thread got the exception %s in call %d.%d" % (e, i, k))
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if old is not None:
        the_logger._handler.setStream(old)
    v.check(sorted(seen) == [(i, k) for i in range(n) for k in range(m)], "arguments", "calls of several threads are not those made")
    if old is not None:
        told = slow.getvalue().count("told_function")
        want = sum(1 if k % 5 == 4 else 2 for i in range(n) for k in range(m)) if debug else 0
        v.check(told == want, "not-told", lambda: "%d lines tell of the calls instead of %d" % (told, want))
    v.count("steps", n * m)


class Thing:
    pass


def lifetimes(r):
    """What a decorated function is given and gives lives no longer than without the decoration."""
    for _ in range(10):
        the_logger.set_log_level(r.choice([D, I]))
        fails = r.random() < 0.4

        def plain(*a, **k):
            if fails:
                raise Own("from inside")
            return Thing()
        f = debug_function_decorator(plain)
        refs = []
        for _ in range(r.randrange(1, 4)):
            a, b = Thing(), Thing()
            refs += [weakref.ref(a), weakref.ref(b)]
            try:
                refs.append(weakref.ref(f(a, b=b)))
            except Own:
                pass
            a = b = None
        out.take()
        gc.collect()
        v.check(all(x() is None for x in refs), "kept", lambda: "%d of %d objects are still alive after the calls" % (sum(x() is not None for x in refs), len(refs)))
        v.count("steps", len(refs))


v.batches("levels", 240, levels)
v.batches("threads", 40, threads)
v.batches("decorator", 160, decorator)
v.batches("concurrent", 24, concurrent, 60)
v.batches("lifetimes", 40, lifetimes)
v.finish()
