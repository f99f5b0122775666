#!/usr/bin/env python3
"""Harness "py": runs the repository's Python package inside the simulator.

The package's own code runs unmodified.  Simulated here: the multiprocessing module (processes, queues with
their feeder threads and bounded pipes), the clock, process ids, os.system.  Everything below it (the stage
runners, the generated parser, POSIX calls) is simulated as in the other harnesses."""
import ctypes, os, sys

LIBDIR = sys.argv[1]
REPO = sys.argv[2]
if os.environ.get("SIM_NOASLR") != "1":
    # addresses never decide anything, but keeping them fixed makes even wild accesses repeatable
    os.environ["SIM_NOASLR"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    libc = ctypes.CDLL(None)
    cur = libc.personality(ctypes.c_ulong(0xffffffff))
    if cur != -1 and not cur & 0x0040000:
        libc.personality(ctypes.c_ulong(cur | 0x0040000))
    os.execv(sys.executable, [sys.executable, "-B", "-u"] + sys.argv)
sys.dont_write_bytecode = True

import collections, copy, gc, itertools, logging, pickle, time, traceback, types, threading, queue as _queue

L = ctypes.CDLL(os.path.join(LIBDIR, "libpyharness.so"))        # releases the GIL: anything here may switch threads
P = ctypes.PyDLL(os.path.join(LIBDIR, "libpyharness.so"))
CB = ctypes.CFUNCTYPE(None, ctypes.c_long)
for lib in (L, P):
    lib.py_main.argtypes = [ctypes.c_int, ctypes.POINTER(ctypes.c_char_p), CB, CB]
    lib.py_spawn.argtypes = [ctypes.c_char_p, CB, ctypes.c_long, CB]
    lib.py_spawn.restype = ctypes.c_long
    for f in ("join", "done", "killed", "accept", "nodes", "words"):
        getattr(lib, "py_" + f).argtypes = [ctypes.c_long]
        getattr(lib, "py_" + f).restype = ctypes.c_long
    for f in ("kill", "point", "block", "wake", "release", "acquire", "sleep", "probe"):
        getattr(lib, "py_" + f).argtypes = [ctypes.c_long]
        getattr(lib, "py_" + f).restype = None
    for f in ("getpid", "procidx", "uid", "tracing", "jobs", "bank_words", "rules", "bad"):
        getattr(lib, "py_" + f).argtypes = []
        getattr(lib, "py_" + f).restype = ctypes.c_long
    lib.py_thread.argtypes = [ctypes.c_char_p, CB, ctypes.c_long]
    lib.py_fault.argtypes = [ctypes.c_long, ctypes.c_long]
    lib.py_fault.restype = ctypes.c_long
    lib.py_sysfail.argtypes = [ctypes.c_long]
    lib.py_sysfired.restype = ctypes.c_long
    lib.py_time.restype = ctypes.c_double
    lib.py_report.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    lib.py_load_failed.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    lib.py_bad_rule.argtypes = [ctypes.c_long]
    lib.py_harness_error.argtypes = lib.py_trace.argtypes = lib.py_outside.argtypes = lib.py_setup_failed.argtypes = [ctypes.c_char_p]
    for f in ("named", "leaks", "grammar", "bad_how"):
        getattr(lib, "py_" + f).restype = ctypes.c_char_p
    lib.py_rule.argtypes = [ctypes.c_long]
    lib.py_rule.restype = ctypes.c_char_p
    lib.py_param.argtypes = [ctypes.c_char_p, ctypes.c_long]
    lib.py_param.restype = ctypes.c_long
    lib.py_job.argtypes = [ctypes.c_long, ctypes.c_char_p, ctypes.c_long]
    lib.py_job.restype = ctypes.c_long
    lib.py_input.argtypes = [ctypes.c_long, ctypes.POINTER(ctypes.c_void_p)]
    lib.py_input.restype = ctypes.c_long
    lib.py_node.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.POINTER(ctypes.c_long)]
    lib.py_put_file.argtypes = [ctypes.c_char_p, ctypes.c_long]
F_SLOWCB, F_QDELAY = 4, 9
KEYS = itertools.count(0x700000000000, 16)
MSGS = itertools.count(1)
KEEP = []                                # nothing is ever collected: finalisers run when the code drops a reference, not at exit


def report(cls, msg):
    L.py_report(cls.encode(), " | ".join(x.strip() for x in str(msg).split("\n") if x.strip()).encode("utf-8", "replace")[:1200])


def trace(msg):
    if TRACING:
        L.py_trace(str(msg).encode("utf-8", "replace")[:500])


TRACING = False


def in_sim():
    return P.py_uid() >= 0


# ------------------------------------------------------------ the simulated multiprocessing module
PIPE = 65536
FEEDERS = collections.defaultdict(list)      # process index -> feeders


class Feeder:
    """The thread a process uses to move what it put into a queue to the queue's pipe."""
    def __init__(self, q):
        self.q, self.items, self.key, self.idle = q, collections.deque(), next(KEYS), True
        self.cb = CB(self.run)
        KEEP.append(self.cb)
        L.py_thread(b"feeder", self.cb, 0)

    def run(self, _):
        q = self.q
        while True:
            while not self.items:
                self.idle = True
                L.py_wake(self.key + 1)
                L.py_block(self.key)
            for _i in range(L.py_fault(F_QDELAY, 40)):
                L.py_yield()
            obj = self.items.popleft()
            try:
                data = pickle.dumps(obj)          # as late as in the real thing
            except Exception:
                report("python:pickle", traceback.format_exc())
                continue
            while q.used and q.used + len(data) > PIPE or len(data) > PIPE and not q.readers:
                L.py_block(q.room)
            q.used += len(data)
            m = next(MSGS)
            L.py_release(m)
            q.pipe.append((data, m))
            L.py_wake(q.key)

    def put(self, obj):
        self.items.append(obj)
        self.idle = False
        L.py_wake(self.key)

    def flush(self):
        while self.items or not self.idle:
            L.py_block(self.key + 1)


class Queue:
    def __init__(self, maxsize=0, *, ctx=None):
        self.pipe, self.used, self.readers = collections.deque(), 0, 0
        self.key, self.room = next(KEYS), next(KEYS)
        self.feeders = {}
        KEEP.append(self)

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    def put(self, obj, block=True, timeout=None):
        L.py_point(30)
        i = P.py_procidx()
        f = self.feeders.get(i)
        if f is None:
            f = self.feeders[i] = Feeder(self)
            FEEDERS[i].append(f)
        f.put(obj)
        L.py_point(31)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get(self, block=True, timeout=None):
        L.py_point(32)
        deadline = None if timeout is None else P.py_time() + timeout
        while not self.pipe:
            if not block or deadline is not None and P.py_time() >= deadline:
                raise _queue.Empty
            if deadline is not None:
                L.py_sleep(max(1000, int((deadline - P.py_time()) * 1e9 / 8)))
                continue
            self.readers += 1
            L.py_wake(self.room)
            L.py_block(self.key)
            self.readers -= 1
        data, m = self.pipe.popleft()
        self.used -= len(data)
        L.py_acquire(m)
        L.py_wake(self.room)
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        L.py_point(33)
        return not self.pipe

    def qsize(self):
        L.py_point(33)
        return len(self.pipe)

    def full(self):
        return False

    def close(self):
        pass

    def join_thread(self):
        f = self.feeders.get(P.py_procidx())
        if f:
            f.flush()

    def cancel_join_thread(self):
        f = self.feeders.get(P.py_procidx())
        if f in FEEDERS[P.py_procidx()]:
            FEEDERS[P.py_procidx()].remove(f)


class SimpleQueue(Queue):
    """put() writes to the pipe itself."""
    def put(self, obj, block=True, timeout=None):
        L.py_point(30)
        data = pickle.dumps(obj)
        while self.used and self.used + len(data) > PIPE or len(data) > PIPE and not self.readers:
            L.py_block(self.room)
        self.used += len(data)
        m = next(MSGS)
        L.py_release(m)
        self.pipe.append((data, m))
        L.py_wake(self.key)


class _Shared:
    def __deepcopy__(self, memo):
        return self


class Semaphore(_Shared):
    def __init__(self, value=1, *, ctx=None):
        self.value, self.key, self.m = value, next(KEYS), next(MSGS)

    def acquire(self, block=True, timeout=None):
        L.py_point(34)
        deadline = None if timeout is None else P.py_time() + timeout
        while self.value <= 0:
            if not block or deadline is not None and P.py_time() >= deadline:
                return False
            if deadline is not None:
                L.py_sleep(1000)
            else:
                L.py_block(self.key)
        self.value -= 1
        L.py_acquire(self.m)
        return True

    def release(self, n=1):
        L.py_point(35)
        self.value += n
        L.py_release(self.m)
        L.py_wake(self.key)

    __enter__ = lambda self: self.acquire()
    __exit__ = lambda self, *a: self.release()


class Lock(Semaphore):
    def __init__(self, *, ctx=None):
        super().__init__(1)


class RLock(Lock):
    def __init__(self, *, ctx=None):
        super().__init__()
        self.owner, self.depth = None, 0

    def acquire(self, block=True, timeout=None):
        if self.owner == P.py_uid():
            self.depth += 1
            return True
        if super().acquire(block, timeout):
            self.owner, self.depth = P.py_uid(), 1
            return True
        return False

    def release(self):
        self.depth -= 1
        if not self.depth:
            self.owner = None
            super().release()


class Event(_Shared):
    def __init__(self, *, ctx=None):
        self.flag, self.key = False, next(KEYS)

    def is_set(self):
        L.py_point(36)
        return self.flag

    def set(self):
        L.py_point(37)
        self.flag = True
        L.py_wake(self.key)

    def clear(self):
        L.py_point(38)
        self.flag = False

    def wait(self, timeout=None):
        L.py_point(39)
        deadline = None if timeout is None else P.py_time() + timeout
        while not self.flag:
            if deadline is not None:
                if P.py_time() >= deadline:
                    return False
                L.py_sleep(1000)
            else:
                L.py_block(self.key)
        return True


class Barrier(_Shared):
    def __init__(self, parties, action=None, timeout=None, *, ctx=None):
        self.parties, self.count, self.gen, self.key = parties, 0, 0, next(KEYS)

    def wait(self, timeout=None):
        L.py_point(40)
        g = self.gen
        self.count += 1
        if self.count == self.parties:
            self.count = 0
            self.gen += 1
            L.py_wake(self.key)
            return 0
        while g == self.gen:
            L.py_block(self.key)
        return 1


class Value(_Shared):
    def __init__(self, typ, value=0, *, lock=True):
        self.value, self._lock = value, RLock()

    def get_lock(self):
        return self._lock


class Connection(_Shared):
    def __init__(self, rx, tx):
        self.rx, self.tx = rx, tx

    def send(self, obj):
        self.tx.put(obj)

    def recv(self):
        return self.rx.get()

    def poll(self, timeout=0.0):
        deadline = None if timeout is None else P.py_time() + timeout
        while not self.rx.pipe:
            if deadline is not None and P.py_time() >= deadline:
                return False
            L.py_sleep(1000)
        return True

    def close(self):
        pass


def Pipe(duplex=True):
    a, b = SimpleQueue(), SimpleQueue()
    return Connection(a, b), Connection(b, a)


PROCS = {}
SHARED_FALLBACK = [0]


class Process:
    _n = itertools.count(1)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.name = name or "Process-%d" % next(Process._n)
        self.daemon = bool(daemon)
        self._idx, self._exit = None, [None]

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._idx is None, "cannot start a process twice"
        if not in_sim():
            P.py_harness_error(b"a process was started before the simulation began")
        # fork: the child works on its own copy of everything reachable
        try:
            child = copy.deepcopy(self)
        except Exception:
            SHARED_FALLBACK[0] += 1
            child = self
        child._exit = self._exit
        KEEP.append(child)
        cb = CB(lambda _a: child._bootstrap())
        KEEP.append(cb)
        self._idx = L.py_spawn(self.name.encode(), cb, 0, CB(0))
        PROCS[self._idx] = self

    def _bootstrap(self):
        code = 1
        try:
            self.run()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:
            report("python:exception", "worker process died: " + traceback.format_exc()[-900:])
        flush_feeders()
        self._exit[0] = code

    def join(self, timeout=None):
        assert self._idx is not None, "can only join a started process"
        if timeout is not None:
            deadline = P.py_time() + timeout
            while not L.py_done(self._idx):
                if P.py_time() >= deadline:
                    return
                L.py_sleep(100000)
        L.py_join(self._idx)

    def is_alive(self):
        return self._idx is not None and not L.py_done(self._idx)

    @property
    def exitcode(self):
        if self._idx is None or not L.py_done(self._idx):
            return None
        return -15 if L.py_killed(self._idx) else self._exit[0]

    @property
    def pid(self):
        return None if self._idx is None else MASTER_PID + self._idx

    ident = pid

    def terminate(self):
        L.py_point(41)
        L.py_kill(self._idx)

    kill = terminate

    def close(self):
        pass


MASTER_PID = 0


def flush_feeders():
    for f in list(FEEDERS[P.py_procidx()]):
        f.flush()


mp = types.ModuleType("multiprocessing")
for n in ("Process", "Queue", "SimpleQueue", "Semaphore", "Lock", "RLock", "Event", "Barrier", "Value", "Pipe"):
    setattr(mp, n, globals()[n])
mp.JoinableQueue = Queue
mp.BoundedSemaphore = Semaphore
mp.cpu_count = lambda: 8
mp.get_start_method = lambda *a, **k: "fork"
mp.set_start_method = lambda *a, **k: None
mp.get_context = lambda *a: mp
mp.freeze_support = lambda: None
mp.active_children = lambda: [p for p in PROCS.values() if p.is_alive()]
mp.current_process = lambda: types.SimpleNamespace(name="Process", pid=os.getpid(), daemon=False)
mp.TimeoutError = TimeoutError
mp.queues = types.ModuleType("multiprocessing.queues")
mp.queues.Queue, mp.queues.SimpleQueue, mp.queues.Empty = Queue, SimpleQueue, _queue.Empty
mp.__path__ = []
sys.modules["multiprocessing"] = mp
sys.modules["multiprocessing.queues"] = mp.queues

# ------------------------------------------------------------ the rest of the process environment
REAL_PID = os.getpid()
os.environ["CENTAURUS_DL_PATH"] = os.path.join(LIBDIR, "pylib")
SUT = ctypes.CDLL(os.path.join(LIBDIR, "pylib", "libpycentaurus.so"), mode=ctypes.RTLD_GLOBAL)
sys.path.insert(0, os.path.join(REPO, "src", "python"))
import centaurus

logging.raiseExceptions = False


def patch_environment():
    os.getpid = lambda: P.py_getpid()
    os.system = lambda cmd: 0
    EPOCH = 1700000000.0
    time.time = lambda: EPOCH + P.py_time()
    time.monotonic = time.perf_counter = time.process_time = lambda: P.py_time()
    time.time_ns = lambda: int(time.time() * 1e9)
    time.sleep = lambda s: L.py_sleep(int(s * 1e9))
    os.fork = lambda: P.py_harness_error(b"os.fork is not simulated")


def unraisable(u):
    # ctypes prints exceptions of callbacks and goes on: none is expected
    e = u.exc_value
    t = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-900:] if e is not None else str(u.err_msg)
    if u.err_msg and "ctypes" in str(u.err_msg):
        report("python:exception", "exception in a callback: " + t)
    else:
        trace("unraisable: " + t)


sys.unraisablehook = unraisable


# ------------------------------------------------------------ workload
class Node:
    __slots__ = ("id", "start", "end", "parent", "kids", "null", "val", "called", "done")


class JobState:
    def __init__(self, i):
        p = ctypes.c_void_p()
        n = P.py_input(i, ctypes.byref(p))
        self.index, self.input = i, ctypes.string_at(p, n) if n else b""
        self.accept = bool(P.py_accept(i))
        o = (ctypes.c_long * 5)()
        self.nodes, self.by_key = [], {}
        vmode = P.py_job(i, b"vmode", 0)
        for k in range(P.py_nodes(i)):
            P.py_node(i, k, o)
            d = Node()
            d.id, d.start, d.end, d.parent, d.null = o[0], o[1], o[2], o[3], bool(o[4])
            d.kids, d.called, d.done = [], False, False
            d.val = None if d.null else value(vmode, i, k)
            self.nodes.append(d)
            if d.parent >= 0:
                self.nodes[d.parent].kids.append(d)
            if d.end >= 0:
                self.by_key[(d.id, d.start, d.end)] = d
        self.calls = 0
        k = P.py_job(i, b"raise", 0)
        self.bad = self.nodes[k % len(self.nodes)] if k and self.nodes else None     # its handler fails
        self.failed = False
        self.words = P.py_words(i)


def value(mode, job, k):
    """What the handler of construct k returns; None is 'no value'."""
    if mode == 0:
        return (job, k)
    if mode == 1:
        return [job, k, {"k": str(k)}]
    if mode == 2:
        return (0, "", [], False, 0.0, {}, b"", (), k, -k)[k % 10]
    if mode == 3:
        return ("x" * (7000 if k % 5 == 0 else k % 50), job, k)
    return k + 1 if k % 3 else {"job": job, "k": k, "l": list(range(k % 7))}


def same(a, b):
    return type(a) is type(b) and a == b


CUR = None                               # the parse in progress
ALL = []


def reduced(ctx, rule):
    """A handler was called: rule name, or None for defaultact()."""
    J = CUR
    L.py_point(42)
    L.py_progress()
    try:
        text = ctx.readbytes()
        n = len(ctx)
        kids = [ctx[i] for i in range(n)]
    except Exception:
        report("python:exception", "handler interface failed: " + traceback.format_exc()[-900:])
        return None
    if J is None:
        report("reduction:phantom", "handler for %s called although no parse is running" % (rule,))
        return None
    J.calls += 1
    sym = getattr(ctx, "symbol", None)
    node = None
    if sym is not None:
        ident = RULE_IDS[rule] if rule else MACHINES.get(sym.id, 0)
        name = rule or (RULES[ident - 1] if ident else "?")
        node = J.by_key.get((ident, sym.start, sym.end))
        where = "%s [%d,%d)" % (name, sym.start, sym.end)
        if MACHINES.get(sym.id) != ident:
            report("reduction:phantom", "handler of %s called for construct %d" % (rule or "no rule", sym.id))
        if node is not None and J.input[node.start:node.end] != text:
            report("reduction:text", "handler of %s got another text: %r" % (where, text[:60]))
    else:
        where = "%s %r" % (rule, text[:40])
        cand = [d for d in J.nodes if d.end >= 0 and (d.id == RULE_IDS[rule] if rule else RULES[d.id - 1] in DEFAULTS) and J.input[d.start:d.end] == text]
        node = next((d for d in cand if not d.called and len([k for k in d.kids if k.val is not None]) == n), None) or (cand[0] if cand else None)
    trace("handler %s n=%d" % (where, n))
    if node is None:
        report("reduction:phantom", "construct %s reported but not recognised in the input" % where)
        return None
    if node.called:
        report("reduction:duplicate", "construct %s reported twice" % where)
        return node.val
    node.called = True
    if (RULES[node.id - 1] in DEFAULTS) != (rule is None):
        report("reduction:phantom", "construct %s reported to the wrong handler" % where)
    if node is J.bad:
        J.failed = True
        trace("handler %s fails" % where)
        raise HandlerFailure("as planned")
    if J.failed:
        return node.val                  # nobody relies on the values any more
    if not all(k.done for k in node.kids):
        report("reduction:order", "construct %s reported before a construct nested in it" % where)
    exp = [k.val for k in node.kids if k.val is not None]
    if n != len(exp):
        report("values:count", "handler of %s got %d values, expected %d" % (where, n, len(exp)))
    elif not all(same(a, b) for a, b in zip(kids, exp)):
        report("values:wrong", "handler of %s got values %.300r, expected %.300r" % (where, kids, exp))
    else:
        it = list(ctx)
        if len(it) != n or not all(same(a, b) for a, b in zip(it, exp)):
            report("values:wrong", "iteration over the values of %s gave %.300r, expected %.300r" % (where, it, exp))
        if not all(same(ctx[-1 - i], exp[n - 1 - i]) for i in range(n)):
            report("values:wrong", "counted from the last, the values of %s are not the same" % where)
        for i in (n, -n - 1):
            try:
                v = ctx[i]
            except IndexError:
                continue
            report("values:wrong", "%s has %d values, but index %d of it gives %.300r" % (where, n, i, v))
        try:
            t = text.decode()
        except UnicodeDecodeError:
            t = None
        if t is not None and ctx.read() != t:
            report("reduction:text", "read() of %s gave another text" % where)
    for _ in range(L.py_fault(F_SLOWCB, 40)):
        L.py_yield()
    node.done = True
    return node.val


class HandlerFailure(Exception):
    pass


class Listener:
    pass


RULES, RULE_IDS, MACHINES, DEFAULTS = [], {}, {}, set()     # names; name -> number here; id in the parser -> number here; without a handler
THE_CTX = None


def make_listener(without=None):
    import random
    ns = {"parseqq%d" % k: lambda self, ctx: report("reduction:phantom", "handler of a rule that is not used called") for k in range(P.py_unused())}
    if without:
        return type("L", (Listener,), {**ns, **{"parse" + n: (lambda nm: lambda self, ctx: reduced(ctx, nm))(n) for n in RULES if n != without}})()
    rnd = random.Random(P.py_param(b"gseed", 0))
    pct = P.py_param(b"defaults", 0)
    for name in RULES:
        if rnd.randrange(100) < pct:
            DEFAULTS.add(name)
        else:
            ns["parse" + name] = (lambda nm: lambda self, ctx: reduced(ctx, nm))(name)
    if DEFAULTS or rnd.random() < 0.5:
        ns["defaultact"] = lambda self, ctx: reduced(ctx, None)
    return type("L", (Listener,), ns)()


def load_damaged(path):
    """A Context from damaged grammar files: an exception, or all of what they say."""
    expect, how = P.py_bad(), P.py_bad_how().decode()
    fail = lambda cls, msg: P.py_load_failed(cls.encode(), ("creating a Python context from a grammar with %s: %s" % (how, msg)).encode("utf-8", "replace"))
    P.py_outside(("creating a Python context from a grammar with " + how).encode())
    try:
        ctx = centaurus.Context(path)
    except Exception as e:
        trace("damaged grammar (%s): %r" % (how, e))
        L.py_probe(53)
        if expect == 2:
            fail("load:refused", "refused although nothing is wrong: %r" % (e,))
        return
    trace("damaged grammar (%s): accepted" % how)
    if expect == 1:
        fail("load:accepted", "it was created without complaint")
    for i in range(P.py_rules()):
        if (RULES[i] in ctx.grammar.ids) != bool(P.py_bad_rule(i)):
            fail("load:partial", "a parser was built, but rule %s %s" % (RULES[i], "is missing" if P.py_bad_rule(i) else "is there although its definition was cut off"))
    KEEP.append(ctx)


def exec_cb(_):
    """Before the simulation starts: grammar and parser are created."""
    global THE_CTX, THE_LISTENER, MASTER_PID, TRACING
    try:
        gc.disable()
        patch_environment()
        MASTER_PID = P.py_param(b"pid", 500)
        TRACING = bool(P.py_tracing())
        RULES.extend(P.py_rule(i).decode() for i in range(P.py_rules()))
        RULE_IDS.update((n, i + 1) for i, n in enumerate(RULES))
        MACHINES.update((P.py_rule_id(i), i + 1) for i in range(P.py_rules()))
        ALL.extend(JobState(i) for i in range(P.py_jobs()))
        SUT.sim_set_bank_size.argtypes = [ctypes.c_long]
        SUT.sim_set_bank_size(P.py_bank_words() * 8)
        P.py_globals(ctypes.cast(SUT.sim_set_bank_size, ctypes.c_void_p))
        path = P.py_grammar().decode()
        if P.py_bad():
            load_damaged(os.path.dirname(path) + "/bad/g.cgr")
        P.py_outside(b"creating a Python context")
        try:
            centaurus.Context.bank_size = P.py_bank_words() * 8
            THE_CTX = centaurus.Context(path)
        except Exception:
            P.py_setup_failed(("a correct grammar is refused: " + traceback.format_exc()[-600:]).encode())
        P.py_outside(None)
        KEEP.append(THE_CTX)
        THE_LISTENER = make_listener()
        KEEP.append(THE_LISTENER)
        THE_CTX.attach(THE_LISTENER)
    except BaseException:
        P.py_harness_error(traceback.format_exc()[-1500:].encode())


def path_of(i):
    while i and P.py_job(i, b"same", 0):
        i -= 1
    k = i
    while k and P.py_job(k, b"rewrite", 0):
        k -= 1
        while k and P.py_job(k, b"same", 0):
            k -= 1
    return "/sim/input%d" % k


def check_stopped(when):
    for i, p in PROCS.items():
        if not L.py_done(i):
            report("hang:worker", "%s worker process %s is still running" % (when, p.name))
    names = P.py_named().decode().split()
    if names:
        report("leak:name", "%s a named object still exists: %s" % (when, names[0]))


def master(_):
    global CUR
    try:
        ctx = THE_CTX
        njobs = P.py_jobs()
        workers = P.py_job(0, b"workers", 1) or 1
        k = P.py_param(b"nohandler", 0)
        if k:
            L.py_probe(22)
            try:
                ctx.attach(make_listener(RULES[k % len(RULES)]))
                ctx.start(workers)
                P.py_put_file(path_of(0).encode(), 0)
                r = ctx.parse(path_of(0))
                report("setup:unreported", "a listener without a handler for %s was accepted, parse() returned %.200r" % (RULES[k % len(RULES)], r))
                return
            except Exception as e:
                trace("listener without handler: %r" % (e,))
            if hasattr(ctx, "parallel_workers"):
                return
            ctx.attach(THE_LISTENER)
        if P.py_param(b"stop_early", 0):
            ctx.start(workers)
            ctx.stop()
            check_stopped("after stop()")
        ctx.start(workers)
        for i in range(njobs):
            J = ALL[i]
            if P.py_job(i, b"restart", 0):
                workers = P.py_job(i, b"restart", 0)
                ctx.stop()
                check_stopped("after stop()")
                ctx.start(workers)
            pause = P.py_job(i, b"pause", 0)
            if pause:
                L.py_sleep(pause * 1000)
            path = path_of(i)
            missing = P.py_job(i, b"missing", 0)
            if missing:
                path = "/sim/missing"
            else:
                P.py_put_file(path.encode(), i)
            trace("parse %d: %s (%d bytes, %s, %d constructs)" % (i, path, len(J.input), "accepted" if J.accept else "rejected", len(J.nodes)))
            CUR = None if missing else J
            err = None
            sysfail = 0 if missing else P.py_job(i, b"sysfail", 0)
            if sysfail:
                L.py_sysfail(sysfail)
            try:
                r = ctx.parse(path)
            except Exception as e:
                r, err = None, e
            CUR = None
            trace("parse %d returned %.200r %r" % (i, r, err))
            if sysfail:
                L.py_sysfail(0)
                if L.py_sysfired():
                    L.py_probe(23)
                    if err is None:
                        report("setup:unreported", "a system call failed in the master and parse() returned %.200r" % (r,))
                    if J.calls:
                        report("reduction:phantom", "handlers called by a parse whose setup failed")
                    continue
            if missing:
                L.py_probe(20)
                if err is None:
                    report("setup:unreported", "parse() of a missing file returned %.200r" % (r,))
                continue
            if J.words > P.py_bank_words():
                L.py_probe(1)
            if J.words > P.py_bank_words() * workers * 2:
                L.py_probe(0)
            if workers > 1:
                L.py_probe(3)
            if J.failed:
                L.py_probe(21)
                if err is None:
                    report("setup:unreported", "a handler failed and parse() returned %.200r" % (r,))
                continue
            if not J.accept:
                L.py_probe(40)
                if err is None and r is not None:
                    report("result:wrong", "parse() of a rejected input returned %.200r" % (r,))
                continue
            if err is not None:
                report("python:exception", "parse() of an accepted input raised %r" % (err,))
                continue
            root = J.nodes[0]
            if not same(r, root.val):
                report("result:wrong", "parse() returned %.300r, expected %.300r" % (r, root.val))
            for d in J.nodes:
                if not d.called:
                    report("reduction:missing", "construct %s [%d,%d) never reported" % (RULES[d.id - 1], d.start, d.end))
                    break
            if J.calls > 1:
                P.py_nontrivial()
        ctx.stop()
        check_stopped("after stop()")
        flush_feeders()
    except SystemExit:
        report("python:exception", "the master process was made to exit")
    except BaseException:
        report("python:exception", "master: " + traceback.format_exc()[-1000:])


MASTER_CB = CB(master)


def root_cb(_):
    try:
        idx = L.py_spawn(b"master", MASTER_CB, 0, CB(0))
        L.py_join(idx)
    except BaseException:
        P.py_harness_error(traceback.format_exc()[-1500:].encode())


if __name__ == "__main__":
    gc.collect()
    gc.freeze()
    args = [b"simpy"] + [a.encode() for a in sys.argv[3:]]
    arr = (ctypes.c_char_p * (len(args) + 1))(*args, None)
    sys.exit(P.py_main(len(args), arr, CB(exec_cb), CB(root_cb)))
