"""Explorer core: controlled scheduler (greenlets), virtual time, bounded exhaustive search.

Everything nondeterministic in an execution is decided through Choices.choose();
an execution is therefore a function of the sequence of its choices, and the
explorer enumerates those sequences exhaustively within a deviation bound.
"""
from __future__ import print_function

import collections
import gc
import hashlib
import json
import os
import sys
import time as _time
import traceback

import greenlet

REAL_TIME = _time.time
REAL_PERF = _time.perf_counter

# The execution being run (one at a time in a process)
S = None


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.sig = sig  # identifies one specific failing input / site / history
        _stop_with(self)  # even if the code under test catches it


class HarnessError(BaseException):
    """The machinery itself is wrong: never a verdict."""

    def __init__(self, *args):
        BaseException.__init__(self, *args)
        _stop_with(self)


def _stop_with(e):
    if isinstance(S, Sched) and S.fatal is None:
        S.fatal = e


class Diverged(HarnessError):
    """A replayed prefix met different choice points."""


class Choices(object):
    """Resolves choice points: a sparse prefix of deviations, then defaults."""

    def __init__(self, prefix=()):
        self.prefix = dict(prefix)
        self.last = max(self.prefix) if self.prefix else -1
        self.points = []  # (n, cost_of_alternative)
        self.taken = []
        self.labels = []
        self.cost = 0

    def choose(self, n, cost=0, label=""):
        """Pick one of n alternatives; 0 is the default and free, the others cost `cost`."""
        if n <= 1:
            return 0
        i = len(self.points)
        c = self.prefix.get(i, 0)
        if c >= n:
            raise Diverged("choice %d: wanted %d of %d (%s)" % (i, c, n, label))
        self.points.append((n, cost))
        self.taken.append(c)
        self.labels.append(label)
        if c:
            self.cost += cost
        return c


class Task(object):
    __slots__ = (
        "id", "name", "g", "done", "pred", "deadline", "timed_out", "error",
        "site", "why", "kind", "low",
    )

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.g = None
        self.done = False
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.error = None
        self.site = 0
        self.why = ""
        self.kind = kind
        self.low = False

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


START_TIME = 1600000000.0
INF = float("inf")


class Sched(object):
    """Cooperative scheduler; the only source of thread interleaving and of time."""

    def __init__(self, choices, points=(), horizon=60000, time_horizon=1e9, preempt=True):
        self.x = choices
        self.tasks = []
        self.current = None
        self.now = START_TIME
        self.end_time = START_TIME + time_horizon
        self.steps = 0
        self.horizon = horizon
        self.points = frozenset(points)  # modules whose statements are scheduling points
        self.preempt = preempt
        self.atomic = 0
        self.log = []  # observations
        self.states = set()
        self._obs = 0
        self.verdict = None
        self.hub = greenlet.getcurrent()
        self.fatal = None
        self.stop = False
        self.unfinished = []
        self.thread_errors = []
        self.state_hook = None

    # -- observations -------------------------------------------------
    def obs(self, *event):
        self.log.append(event)
        self._obs = hash((self._obs, repr(event)))

    # -- tasks --------------------------------------------------------
    def spawn(self, fn, name="task", kind="env"):
        t = Task(len(self.tasks), name, kind)

        def body():
            try:
                fn()
            except (Violation, StepTimeout) as e:
                if self.fatal is None:
                    self.fatal = e
            except HarnessError as e:
                self.fatal = e
            except greenlet.GreenletExit:
                pass
            except BaseException as e:
                t.error = e
                if kind == "env":
                    # harness code must not fail by accident
                    e._mc_tb = traceback.format_exc()
                    if self.fatal is None:
                        self.fatal = e
                else:
                    self.thread_errors.append((name, e, traceback.format_exc()))
            t.done = True

        t.g = greenlet.greenlet(body, self.hub)
        self.tasks.append(t)
        return t

    def _enabled(self, t):
        if t.done or t.low:
            return False
        if t.pred is not None:
            if t.pred():
                return True
            return t.deadline is not None and t.deadline <= self.now
        if t.deadline is not None:
            return t.deadline <= self.now
        return True

    def _pick(self):
        """Choose the next task to run, or None when nothing can run."""
        while True:
            cur = self.current
            enabled = []
            cur_on = cur is not None and self._enabled(cur)
            if cur_on:
                enabled.append(cur)
            for t in self.tasks:
                if t is not cur and self._enabled(t):
                    enabled.append(t)
            if enabled:
                break
            nxt = min([t.deadline for t in self.tasks
                       if not t.done and not t.low and t.deadline is not None] or [INF])
            # tasks that wait for the moment when nothing else can run
            low = None
            for t in self.tasks:
                if t.low and not t.done:
                    due = self.now if t.deadline is None else max(t.deadline, self.now)
                    if due < nxt:
                        low, nxt = t, due
            if nxt > self.end_time:
                return None
            self.now = max(self.now, nxt)
            if low is not None:
                low.low = False
                low.deadline = None
                return low
        n = len(enabled)
        if n == 1:
            return enabled[0]
        self.states.add(hash((self._obs, tuple((t.site, t.done) for t in self.tasks), cur and cur.id)))
        if not self.preempt:
            # one fixed schedule
            return enabled[0]
        c = self.x.choose(n, 1 if cur_on else 0, "sched")
        return enabled[c]

    def _switch(self):
        """Give the choice of what runs next to the explorer (called in a task)."""
        me = self.current
        t = self._pick()
        if t is me:
            return
        if t is None:
            self.hub.switch()
        else:
            self.current = t
            t.g.switch()
        # resumed
        if self.current is not me:
            raise HarnessError("scheduler confusion")

    def run(self):
        """Run until nothing can run any more (quiescent), a violation or the horizon."""
        global S
        prev = S
        S = self
        try:
            self.hub = greenlet.getcurrent()
            while self.fatal is None and self.verdict is None and not self.stop:
                t = self._pick()
                if t is None:
                    break
                self.current = t
                t.g.switch()
                if self.current is not None and self.current.done:
                    self.current = None
            self.current = None
        finally:
            self._kill_all()
            S = prev
        if self.fatal is not None:
            raise self.fatal
        if self.verdict is not None:
            raise Violation(self.verdict)

    def _kill_all(self):
        """Unwind what is still blocked, so that nothing of it runs in a later execution."""
        global S
        S = _Dead(self)
        self.unfinished = [t for t in self.tasks if not t.done]
        for t in self.tasks:
            if not t.done and t.g:
                try:
                    t.g.throw(greenlet.GreenletExit)
                except BaseException:
                    pass
            t.g = None

    # -- called from tasks ---------------------------------------------
    def settle(self, seconds=None):
        """Environment tasks only: wait until nothing else can run (for at least `seconds`)."""
        t = self.current
        self.tick("settle")
        t.low = True
        t.deadline = None if seconds is None else self.now + seconds
        t.why = "settle"
        self._switch()
        t.low = False
        t.deadline = None
        t.why = ""

    def in_task(self):
        return self.current is not None

    def point(self, why=""):
        """A scheduling point."""
        t = self.current
        if t is None or self.atomic:
            return
        self.tick(why)
        self._switch()

    def tick(self, why=""):
        self.steps += 1
        if self.steps > self.horizon:
            if self.verdict is None:
                self.verdict = "livelock: %d steps without quiescence (last in %r at %s)" % (
                    self.steps, self.current, why)
            # never resumed
            self.hub.switch()

    def step(self, mod, site):
        """Called before every instrumented statement."""
        t = self.current
        if t is None:
            return
        t.site = site
        self.tick(site)
        if mod in self.points and not self.atomic:
            self._switch()

    def block(self, pred, timeout=None, why=""):
        """Wait until pred() or the timeout; returns True if pred() held."""
        t = self.current
        if t is None:
            raise HarnessError("block outside a task: %s" % why)
        if self.atomic:
            raise HarnessError("block inside atomic section: %s" % why)
        self.tick(why)
        t.pred = pred
        t.why = why
        t.deadline = None if timeout is None else self.now + max(0.0, timeout)
        self._switch()
        ok = pred()
        t.pred = None
        t.deadline = None
        t.why = ""
        return ok

    def sleep(self, seconds):
        t = self.current
        if t is None:
            self.now += seconds
            return
        self.tick("sleep")
        t.pred = lambda: False
        t.why = "sleep"
        t.deadline = self.now + max(0.0, seconds)
        self._switch()
        t.pred = None
        t.deadline = None
        t.why = ""

    def blocked(self):
        return [t for t in self.tasks if not t.done]


class _Dead(object):
    """Stands in for the scheduler while an execution is torn down: whatever runs, stops."""

    current = None

    def __init__(self, s):
        self.now = s.now

    def _stop(self, *a, **kw):
        raise greenlet.GreenletExit()

    point = step = tick = block = sleep = spawn = settle = _stop

    def obs(self, *event):
        pass


# ---------------------------------------------------------------------
# Exploration
# ---------------------------------------------------------------------

class Result(object):
    """What one family of executions covered."""

    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.choice_points = 0
        self.states = set()
        self.outcomes = set()
        self.by_cost = collections.Counter()
        self.violations = []  # (cost, prefix, message)
        self.samples = []
        self.capped = False
        self.errors = []
        self.known = collections.Counter()  # known finding -> executions that met it

    def merge(self, o):
        self.executions += o.executions
        self.transitions += o.transitions
        self.choice_points += o.choice_points
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.by_cost.update(o.by_cost)
        self.violations.extend(o.violations)
        self.capped = self.capped or o.capped
        self.errors.extend(o.errors)
        self.known.update(o.known)
        for s in o.samples:
            if len(self.samples) < 3:
                self.samples.append(s)


class Cycled(int):
    """A number of steps: every choice of the first `period` steps, over and over."""

    def __new__(cls, period, rounds):
        self = int.__new__(cls, period * rounds)
        self.period = period
        return self


class Execution(object):
    """Handed to a harness: resolves its choices, records what happened."""

    def __init__(self, prefix=(), params=None):
        self.x = Choices(prefix)
        self.params = params
        self.sched = None
        self.history = []  # harness level, human readable
        self.steps = 0
        self.states = set()
        self.period = None

    def choose(self, n, cost=0, label=""):
        return self._again(list(range(n)), cost, label)

    def pick(self, seq, cost=0, label=""):
        return self._again(list(seq), cost, label)

    def cycled(self, depth):
        """From here on the choices repeat, when depth is a Cycled; the first label seen is the one that counts the steps."""
        if isinstance(depth, Cycled):
            self.period = depth.period
            self.cycle_main = None
            self.cycle_step = -1
            self.cycle_seen = {}
        return int(depth)

    def _again(self, seq, cost, label):
        if self.period is None:
            return seq[self.x.choose(len(seq), cost, label)]
        if self.cycle_main is None:
            self.cycle_main = label
        main = label == self.cycle_main
        if main:
            self.cycle_step += 1
        seen = self.cycle_seen
        key = (self.cycle_step % self.period, label)
        if key not in seen:
            v = seen[key] = seq[self.x.choose(len(seq), cost, label)]
            return v
        for i in range(self.period if main else 1):
            v = seen.get(((self.cycle_step + i) % self.period, label), self)
            if v in seq:
                self.cycle_step += i
                return v
        return seq[0]

    def note(self, *what):
        self.history.append(what)
        self.states.add(hash((repr(self.history[-3:]), len(self.history))))

    def new_sched(self, **kw):
        self.sched = Sched(self.x, **kw)
        return self.sched

    def outcome(self):
        log = self.sched.log if self.sched is not None else []
        return hash((repr(self.history), repr(log)))


class StepTimeout(BaseException):
    """Not an Exception: the code under test must not swallow it."""


def _alarm(signum, frame):
    raise StepTimeout("no progress: one execution ran for over %d s of wall time" % WALL_PER_EXEC)


WALL_PER_EXEC = 60
KNOWN = frozenset()  # signatures of the known findings of the property being checked


FRESH = None  # puts the state of the agent's modules back


def run_one(harness, prefix, params=None):
    """Run one execution; returns (execution, violation message or None)."""
    import signal
    if FRESH is not None:
        FRESH()
    ex = Execution(prefix, params)
    gc.disable()  # finalizers run between executions, never inside one
    msg = sig = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, WALL_PER_EXEC, 1.0)
    try:
        harness(ex)
    except (Violation, StepTimeout) as e:
        msg = str(e) or repr(e)
        sig = getattr(e, "sig", None)
    except Exception as e:
        # the code under test failed where the harness relies on it
        msg = "unexpected %s: %s\n%s" % (type(e).__name__, e, getattr(e, "_mc_tb", "") or traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        gc.enable()
    if ex.sched is not None:
        ex.steps += ex.sched.steps
        ex.states |= ex.sched.states
    if ex.x.last >= len(ex.x.points) and msg is None:
        raise Diverged("prefix longer than the execution")
    ex.sig = sig
    return ex, msg


def _describe(ex):
    d = {"choices": [[i, c] for i, c in enumerate(ex.x.taken) if c]}
    if ex.history:
        d["history"] = [repr(h) for h in ex.history[:60]]
    if ex.sched is not None:
        d["observed"] = [repr(o)[:300] for o in ex.sched.log[:60]]
    return d


def _account(res, ex, msg, prefix):
    res.executions += 1
    res.transitions += ex.steps if ex.sched is not None else 0
    res.transitions += len(ex.history)
    res.choice_points += len(ex.x.points)
    if len(res.states) < 300000:
        res.states |= ex.states
    if len(res.outcomes) < 300000:
        res.outcomes.add(ex.outcome())
    res.by_cost[ex.x.cost] += 1
    if msg is not None and ex.sig is not None and ex.sig in KNOWN:
        res.known[ex.sig] += 1
    elif msg is not None:
        res.violations.append((ex.x.cost, len(prefix), tuple(prefix), msg))
    elif len(res.samples) < 3 and (res.executions == 1 or prefix):
        res.samples.append(_describe(ex))


def _children(ex, prefix, bound):
    start = (prefix[-1][0] + 1) if prefix else 0
    base = 0
    pts = ex.x.points
    for i, c in prefix:
        base += pts[i][1]
    out = []
    for i in range(start, len(pts)):
        n, cost = pts[i]
        if base + cost > bound:
            continue
        for alt in range(1, n):
            out.append(prefix + ((i, alt),))
    return out


def _dfs(harness, prefixes, bound, params, deadline):
    res = Result()
    stack = list(reversed(prefixes))
    while stack:
        if REAL_TIME() > deadline:
            res.capped = True
            break
        p = stack.pop()
        ex, msg = run_one(harness, p, params)
        _account(res, ex, msg, p)
        if res.violations:
            break
        stack.extend(reversed(_children(ex, p, bound)))
    return res


def _worker(job):
    harness, prefixes, bound, params, deadline = job
    try:
        return _dfs(harness, prefixes, bound, params, deadline)
    except HarnessError as e:
        r = Result()
        r.errors.append("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
        return r
    except Exception as e:
        r = Result()
        r.errors.append("%s: %s\n%s\n%s" % (
            type(e).__name__, e, traceback.format_exc(), getattr(e, "_mc_tb", "")))
        return r


def explore(harness, bound, params=None, deadline=None, jobs=None, seed_target=64):
    """Exhaust all executions of harness with deviation cost <= bound."""
    if deadline is None:
        deadline = REAL_TIME() + 600
    jobs = jobs or int(os.environ.get("MC_JOBS", "8"))
    res = Result()
    # the root execution, twice: the machinery must be deterministic
    ex, msg = run_one(harness, (), params)
    ex2, msg2 = run_one(harness, (), params)
    if msg is None and (ex.outcome() != ex2.outcome() or msg != msg2 or ex.x.points != ex2.x.points):
        raise Diverged("root execution is not deterministic:\n%s\n%s" % (_describe(ex), _describe(ex2)))
    _account(res, ex, msg, ())
    if res.violations:
        return res
    frontier = collections.deque(_children(ex, (), bound))
    while frontier and len(frontier) < seed_target and jobs > 1:
        p = frontier.popleft()
        ex, msg = run_one(harness, p, params)
        _account(res, ex, msg, p)
        if res.violations:
            return res
        frontier.extend(_children(ex, p, bound))
        if res.executions > 400:
            break
    if not frontier:
        return res
    if jobs <= 1 or len(frontier) < 8:
        res.merge(_dfs(harness, list(frontier), bound, params, deadline))
        return res
    work = [[] for _ in range(min(len(frontier), jobs * 6))]
    for i, p in enumerate(frontier):
        work[i % len(work)].append(p)
    for r in run_pool([(harness, w, bound, params, deadline) for w in work], jobs):
        res.merge(r)
    return res


def run_pool(jobs_list, nproc):
    """fork() based pool that inherits everything already imported."""
    import pickle
    results = []
    pending = list(enumerate(jobs_list))
    pending.reverse()
    running = {}  # fd -> (pid, idx, buf)
    import select as _sel
    real_select = _sel._mc_real_select if hasattr(_sel, "_mc_real_select") else _sel.select
    r_read = getattr(os, "_mc_real_read", os.read)
    r_waitpid = getattr(os, "_mc_real_waitpid", os.waitpid)
    r_close = getattr(os, "_mc_real_close", os.close)
    r_write = getattr(os, "_mc_real_write", os.write)
    stop = False
    while pending or running:
        while pending and len(running) < nproc and not stop:
            idx, job = pending.pop()
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    r_close(rfd)
                    r = _worker(job)
                    data = pickle.dumps(r, 2)
                    while data:
                        n = r_write(wfd, data[:65536])
                        data = data[n:]
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            r_close(wfd)
            running[rfd] = (pid, idx, [])
        if not running:
            break
        ready, _, _ = real_select(list(running), [], [], 5.0)
        for fd in ready:
            pid, idx, buf = running[fd]
            chunk = r_read(fd, 1 << 20)
            if chunk:
                buf.append(chunk)
                continue
            r_close(fd)
            del running[fd]
            _, status = r_waitpid(pid, 0)
            if not buf:
                r = Result()
                r.errors.append("worker died (status %r)" % status)
            else:
                r = pickle.loads(b"".join(buf))
            results.append(r)
            if r.violations:
                # enough: the rest of the space is irrelevant now
                stop = True
                pending = []
    return results
