"""C27: the agent keeps polling whatever fails, and stops when asked."""
import os
import subprocess
import types
import urllib.error

from .. import agent, boot, core, vfs, vos
from ..main import Family
from .c25 import Machine

M = "dataplicity."
DISK, TAGS, META = "device.set_disk_space", "device.set_machine_defined_tags", "device.set_uname"


def statvfs(blocks=1000, free=400, avail=300, frsize=4096, bsize=512):
    return types.SimpleNamespace(f_blocks=blocks, f_bfree=free, f_bavail=avail, f_frsize=frsize, f_bsize=bsize, f_files=10, f_ffree=5,
                                 f_favail=5, f_flag=0, f_namemax=255)


class Node(Machine):
    """A machine whose disk, tag script and web API do as they are told; everything tried is recorded with its time."""

    def __init__(self, env):
        Machine.__init__(self, env)
        self.tried = []  # (time, step)
        self.disk = statvfs()
        self.api_says = lambda step: "ok"
        env.api.behave = self.api
        env.s.fs = fs = vfs.Fs(env)
        fs.virtual["/"] = b""
        fs.statvfs = self.statvfs
        self.started = False
        self.disk_reports = []
        self.set(b"tag")
        self.n = 0

    def statvfs(self, path):
        self.env.check(path == "/", "the space of %r was asked for", path)
        self.tried.append((self.env.s.now, "statvfs"))
        if isinstance(self.disk, BaseException):
            raise self.disk
        return self.disk

    def check_output(self, args):
        a = args if isinstance(args, (str, bytes)) else args[0]
        if os.fspath(a).split() == [self.path]:
            self.tried.append((self.env.s.now, "script"))
            if self.script == "changing":
                self.n += 1
                return b"tag%d" % self.n
        return Machine.check_output(self, args)

    def api(self, n, calls):
        names = {c["method"] for c in calls}
        step = "disk" if DISK in names else "tags" if TAGS in names else "identity" if "m2m.associate" in names else "sync"
        self.tried.append((self.env.s.now, step))
        if step == "disk":
            p = [c["params"] for c in calls if c["method"] == DISK][0]
            self.disk_reports.append(p)
        k = self.api_says(step)
        if k == "ok":
            return "ok"
        if isinstance(k, (BaseException, bytes, list, vos.VResponse)):
            return k
        return [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": 7, "message": "no"}} for c in calls]

    def since(self, t):
        return [s for at, s in self.tried if at >= t - 0.001]


EXC = [OSError(5, "Input/output error"), ValueError("odd"), MemoryError(), RuntimeError(), AttributeError("x"), UnicodeDecodeError("utf-8", b"x", 0, 1, "bad")]
BODY = [b"", b"<html>", b"\xff", b"null", [], b"[1]"]


def one_failure(ex):
    """One step fails, in every way, at one of the polls: the others are done as ever, and so is the next poll."""
    step = ex.pick(["statvfs", "script", "disk", "tags", "sync"], label="step")
    when = ex.choose(3, label="poll")
    if step == "statvfs":
        what = ex.pick(EXC, label="what")
    elif step == "script":
        what = ex.pick(EXC + [1, -9, 127, subprocess.TimeoutExpired("x", 1), b"\xff\xfe", b""], label="what")
    else:
        what = ex.pick(EXC + BODY + ["error", urllib.error.URLError("x"), ConnectionResetError(104, "x"), TimeoutError()], label="what")
    env = agent.Env(ex, preempt=False, time_horizon=20000.0)

    def main():
        m = Node(env)
        m.script = "changing"
        state = {"poll": 0}

        def says(s):
            if s == "sync":
                # (details are sent on and on until they are accepted: here, never)
                return what if s == step and state["poll"] == when else "error"
            return what if s == step and state["poll"] == when else "ok"
        m.api_says = says
        env.start_agent()
        # a disk report is due at every poll of this test: the polls are an hour apart
        c = env.client
        if step == "statvfs" and when == 0:
            m.disk = what
        if step == "script" and when == 0:
            m.script = what
        t0 = env.s.now
        env.s.spawn(c.run_forever, "agent", kind="agent")
        env.settle(1)
        for k in range(3):
            failed = k == when
            got = m.since(t0)
            want = ["statvfs", "disk", "script", "tags", "sync"]
            if failed:
                if step == "statvfs":
                    want.remove("disk")
                elif step == "script":
                    want.remove("tags")
                    if isinstance(what, bytes) or isinstance(what, OSError):
                        want.insert(3, "tags")
            env.check(sorted(got) == sorted(want), "poll %d, %s of %s: %r were done, not %r", k, "failure" if failed else "no failure", step, got, want)
            if k == 2:
                break
            # the next poll at which everything is due
            m.script = b"tag-between"
            m.disk = statvfs()
            state["poll"] = -1
            env.settle(3600 - 60)
            env.fresh()
            state["poll"] = k + 1
            t0 = env.s.now
            m.script = "changing"
            if k + 1 == when:
                if step == "statvfs":
                    m.disk = what
                elif step == "script":
                    m.script = what
            env.settle(60)
        ex.note(step, when, type(what).__name__, str(what)[:40])

    env.run(main)


def minutes(ex):
    """Every combination of failing steps over several minutes: every minute every step is tried."""
    n = ex.cycled(ex.params)
    env = agent.Env(ex, preempt=False, time_horizon=20000.0)
    plan = [ex.choose(8, label="failing") for _ in range(n)]

    def main():
        m = Node(env)
        now = [0]

        def says(s):
            f = plan[now[0]]
            if s == "sync":
                return urllib.error.URLError("down") if f & 2 else "error"
            if s == "tags":
                return urllib.error.URLError("down") if f & 2 else "ok"
            return "error" if f & 1 else "ok"
        m.api_says = says
        env.start_agent()

        def arrange(k):
            now[0] = k
            m.script = 1 if plan[k] & 4 else "changing"
            m.disk = OSError(5, "x") if plan[k] & 1 else statvfs()
        arrange(0)
        t0 = env.s.now
        env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.settle(1)
        for k in range(n):
            got = m.since(t0)
            want = (["statvfs"] + ([] if plan[0] & 1 else ["disk"]) if k == 0 else []) + ["script"] + ([] if plan[k] & 4 else ["tags"]) + ["sync"]
            env.check(sorted(got) == sorted(want), "minute %d, failing %r: %r were done, not %r", k, plan[k], got, want)
            if k + 1 < n:
                arrange(k + 1)
                t0 = env.s.now
                env.settle(60)
        ex.note(plan)

    env.run(main)


SPACES = [(1000, 400, 300, 4096), (0, 0, 0, 4096), (1, 0, 0, 512), (2 ** 40, 2 ** 39, 2 ** 38, 4096), (1000, 1000, 950, 1024), (1000, 0, 0, 1), (7, 3, 2, 0),
          (250000, 100, 0, 4096)]


def disk(ex):
    """Disk use: the numbers, and the times, over several hours."""
    a = ex.pick(SPACES, label="space")
    b = ex.pick(SPACES, label="later space")
    fail = ex.choose(3, label="failing report")  # 0: none
    env = agent.Env(ex, preempt=False, time_horizon=20000.0)

    def main():
        m = Node(env)
        m.script = None
        m.set(None)
        m.disk = statvfs(*a)
        m.api_says = lambda s: urllib.error.URLError("down") if s == "disk" and len(m.disk_reports) == fail else "ok"
        env.start_agent()
        t0 = env.s.now
        env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.settle(1)
        m.disk = statvfs(*b)
        for hour in range(3):
            env.fresh()
            env.settle(3600)
        times = [round(t - t0) for t, s in m.tried if s == "disk"]
        env.check(len(times) == 4 or len(times) == 3, "reported at %r", times)
        env.check(times[0] < 1, "the first report came after %r s", times[0])
        for x, y in zip(times, times[1:]):
            env.check(3600 <= y - x <= 3600 + 61, "reported at %r", times)
        for i, p in enumerate(m.disk_reports):
            s = a if i == 0 else b
            want = {"disk_capacity": s[0] * s[3], "disk_used": (s[0] - s[1]) * s[3]}
            env.check(p == want, "report %d: %r, not %r", i, p, want)
        ex.note(a, b, fail)

    env.run(main)


def slow(ex):
    """One or two steps take a long time: the polling goes on after each, a minute apart, the disk at most once an hour."""
    steps = [ex.pick(["script", "tags", "sync", "disk"], label="slow step") for _ in range(2)]
    times = [ex.pick([30, 3500, 3700, 7300, 50000], label="takes") for _ in range(2)]
    env = agent.Env(ex, preempt=False, time_horizon=400000.0, horizon=400000)

    def main():
        m = Node(env)
        m.script = "changing"
        slow = []
        ended = []

        def says(s):
            if slow and slow[0][0] == s:
                t = slow.pop(0)[1]
                env.s.sleep(t)
                ended.append((env.s.now, s))
            return "error" if s == "sync" else "ok"
        m.api_says = says
        real = m.check_output

        def check_output(args):
            a = args if isinstance(args, (str, bytes)) else args[0]
            if os.fspath(a).split() == [m.path] and slow and slow[0][0] == "script":
                t = slow.pop(0)[1]
                env.s.sleep(t)
                ended.append((env.s.now, "script"))
            return real(args)
        env.w.check_output = check_output
        env.start_agent()
        env.s.spawn(env.client.run_forever, "agent", kind="agent")
        t0 = env.s.now
        env.settle(100)
        for st, t in zip(steps, times):
            slow.append((st, t))
            k = len(ended)
            env.fresh()
            while len(ended) == k:
                # (a disk report may be an hour away)
                env.settle(60)
                env.check(env.s.now < t0 + 300000, "the slow step is never reached")
            env.fresh()
            at = ended[-1][0]
            env.settle(200)
            later = [x for x, s in m.tried if s == "script" and x > at]
            env.check(len(later) in (3, 4), "in the 200 s after a slow %s there were %d polls", st, len(later))
        env.fresh()
        env.settle(3700)
        reports = [x for x, s in m.tried if s == "disk"]
        for x, y in zip(reports, reports[1:]):
            env.check(y - x >= 3600 - 0.001, "disk reports at %r and %r", x, y)
        env.check(env.s.now - reports[-1] <= 3600 + 61, "the last disk report was %r s ago", env.s.now - reports[-1])
        ex.note(steps, times)

    env.run(main)


def stop(ex):
    """A request to exit, at any moment: the run ends within seconds, and nothing is polled after it."""
    how = ex.params
    env = agent.Env(ex, points=(M + "client", M + "clockcheck"))

    def main():
        env.s.preempt = False
        m = Node(env)
        env.start_agent()
        env.up()
        done = []

        def run():
            env.client.run_forever()
            done.append(env.s.now)
        env.s.preempt = True
        t = env.s.spawn(run, "agent", kind="agent")
        if how == "start":
            pass
        elif how == "first":
            env.settle(0.5)
        elif how == "due":
            env.settle(59.9)
        elif how == "at-poll":
            # by another thread, while the next poll begins
            env.s.spawn(lambda: (env.s.sleep(60.0), env.client.exit()), "exit", kind="agent")
            env.settle(60.001)
        else:
            env.settle(60)
        t0 = env.s.now
        before = len(m.tried)
        if how == "twice":
            env.client.exit()
        if how != "at-poll":
            env.client.exit()
        env.settle(3)
        env.s.preempt = False
        env.check(t.done and done, "the agent has not ended %.1f s after it was told to", env.s.now - t0)
        env.check(not env.s.thread_errors, "ended by %r", env.s.thread_errors[:1])
        # a poll under way may be finished, no other is begun
        n = len(m.tried)
        polls = len([s for at, s in m.tried[before:] if s == "script"])
        env.check(polls <= 1, "%d polls after the request", polls)
        env.settle(200)
        env.check(len(m.tried) == n, "still polling: %r", m.tried[n:])
        # the watch of the clock has ended as well
        env.s.clock_offset = 10000.0
        env.settle(10)
        env.check(not env.w.foreign_signals, "killed: %r", env.w.foreign_signals)
        ex.note(how, polls)

    env.run(main)


def interrupted(ex):
    """KeyboardInterrupt or SystemExit in any step of any poll: the run ends, cleanly."""
    what = ex.pick([KeyboardInterrupt(), SystemExit(0), SystemExit(3)], label="what")
    step = ex.pick(["statvfs", "script", "disk", "tags", "sync", "wait"], label="step")
    when = ex.choose(2, label="poll")
    env = agent.Env(ex, preempt=False, time_horizon=20000.0)
    done = []

    def main():
        m = Node(env)
        m.script = "changing"
        armed = [when == 0]
        m.api_says = lambda s: what if armed[0] and s == step else "error" if s == "sync" else "ok"
        env.start_agent()

        def run():
            try:
                done.append(("returned", env.client.run_forever()))
            except BaseException as e:
                if isinstance(e, (core.HarnessError, core.greenlet.GreenletExit)):
                    raise
                done.append(("raised", type(e).__name__))
        if when == 0 and step == "statvfs":
            m.disk = what
        if when == 0 and step == "script":
            m.script = what
        if step == "wait":
            if not hasattr(env.client, "exit_event"):
                return
            real = env.client.exit_event.wait

            def wait(*a):
                if armed[0]:
                    raise what
                return real(*a)
            env.client.exit_event.wait = wait
        t = env.s.spawn(run, "agent", kind="agent")
        env.settle(2)
        if when == 1:
            env.check(not done, "ended early: %r", done)
            env.settle(3600 - 62)
            env.fresh()
            armed[0] = True
            if step == "statvfs":
                m.disk = what
            elif step == "script":
                m.script = what
            env.settle(60)
        env.settle(3)
        env.check(done == [("returned", None)], "%s in %s: %r", type(what).__name__, step, done)
        n = len(m.tried)
        env.settle(150)
        env.check(len(m.tried) == n, "still polling")
        env.s.clock_offset = 10000.0
        env.settle(10)
        env.check(not env.w.foreign_signals, "killed: %r", env.w.foreign_signals)
        ex.note(type(what).__name__, step, when)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 4 if deep else 3
    out = [
        Family("one-failure", one_failure, 0, about="one step failing in every way"),
        Family("minutes", minutes, 0, 4 if deep else 3, about="combinations of failing steps"),
        Family("cycles", minutes, 0, core.Cycled(2, 25), about="the same failures, over and over"),
        Family("disk", disk, 0, about="disk numbers and times"),
        Family("slow", slow, 0, about="steps that take a long time"),
        Family("interrupted", interrupted, 0, about="interrupts in every step"),
    ]
    for how in ("start", "first", "due", "poll", "at-poll", "twice"):
        out.append(Family("stop-" + how, stop, b - (how == "at-poll"), how, about="exit: " + how))
    return out
