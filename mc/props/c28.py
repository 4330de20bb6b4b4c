"""C28: a jump of the clock restarts the agent, nothing else does."""
import os
import signal
import urllib.error

from .. import agent, core
from ..main import Family
from .c27 import Node

M = "dataplicity."
BIG = [181.5, 200.0, 3600.0, 86400.0 * 365, 3e9]
SMALL = [0.5, 1.0, 60.0, 150.0, 177.0, -0.5, -1.0, -60.0, -179.0, -181.5, -3600.0, -1e9]
PHASES = [0.0, 0.3, 0.999, 1.0, 1.001, 59.5, 61.2]


def killed(env):
    own = [k for k in env.w.foreign_signals if k == (os.getpid(), int(signal.SIGKILL))]
    env.check(len(own) == len(env.w.foreign_signals), "signals sent: %r", env.w.foreign_signals)
    return bool(own)


def launch(env):
    m = Node(env)
    m.script = None
    m.set(None)
    env.s.clock_offset = 0.0
    env.start_agent()
    return m, env.s.spawn(env.client.run_forever, "agent", kind="agent")


def histories(ex):
    """All sequences of adjustments, at all phases: a kill follows exactly a jump forward of more than three minutes."""
    k, big, small, phases = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e7)

    def main():
        m, t = launch(env)
        env.settle(ex.pick(phases, label="phase"))
        env.settle(0)
        for i in range(k):
            env.fresh()
            j = ex.pick(small + big, label="adjustment")
            ex.note(j)
            env.check(not killed(env), "killed without a jump")
            env.s.clock_offset += j
            if j > 181:
                env.settle(5)
                env.check(killed(env), "the clock jumped by %r: no restart within 5 s", j)
                return
            env.settle(ex.pick(phases[1:3] if k > 2 else phases, label="phase") + 2.1)
            env.check(not killed(env), "killed by an adjustment of %r", j)
        env.settle(120)
        env.check(not killed(env), "killed later")
        env.check(not t.done, "the agent has ended")

    env.run(main)


def running(ex):
    """A day of ordinary running, with a loaded machine, slow servers and failing polls: never a restart."""
    load = ex.pick([0.0, 0.7, 5.0, 60.0, 170.0], label="load")
    api = ex.pick(["ok", "slow", "fail"], label="api")
    env = agent.Env(ex, preempt=False, time_horizon=1e7)

    def main():
        m, t = launch(env)

        def says(s):
            if api == "slow":
                env.s.sleep(400.0)
            if api == "fail":
                return urllib.error.URLError("down")
            return "ok"
        m.api_says = says
        # a loaded machine: every sleep lasts longer than asked for, on both clocks
        real = env.s.sleep
        if load:
            env.s.sleep = lambda s: real(s + load)
        for hour in range(24 if load else 4):
            env.fresh()
            env.settle(3600)
            env.check(not killed(env), "killed in hour %d", hour)
        env.check(not t.done, "the agent has ended")
        env.s.sleep = real
        env.s.clock_offset += 500
        env.settle(400 if load else 5)
        env.check(killed(env), "no longer watching")
        ex.note(load, api)

    env.run(main)


def busy(ex):
    """The watch goes on whatever the rest of the agent does: polls that hang, polls that fail, sessions that drop."""
    what = ex.pick(["hang", "script", "drop", "services"], label="what")
    j = ex.pick(BIG[:3], label="jump")
    wait = ex.pick([0.2, 0.9, 30.0, 100.0], label="wait")
    env = agent.Env(ex, preempt=False, time_horizon=1e7)

    def main():
        m, t = launch(env)
        if what == "hang":
            m.api_says = lambda s: env.s.sleep(1e6)
        elif what == "script":
            m.set(1)
        elif what == "drop":
            env.up()
            env.server.disconnect()
        else:
            env.up()
            env.server.instruct(action=b"open-echo", port=3)
        env.settle(wait)
        env.check(not killed(env), "killed")
        env.s.clock_offset += j
        env.settle(5)
        env.check(killed(env), "the clock jumped by %r (%s): no restart", j, what)
        ex.note(what, j, wait)

    env.run(main)


def ended(ex):
    """Once the agent was told to exit, the watch ends with it: no kill whenever the clock jumps after that."""
    wait = ex.pick([0.0, 0.5, 1.0, 59.9, 60.0, 75.3], label="running for")
    later = ex.pick([0.0, 0.01, 0.99, 1.0, 2.0, 30.0], label="jump after")
    env = agent.Env(ex, preempt=False, time_horizon=1e7)

    def main():
        m, t = launch(env)
        env.settle(wait)
        env.client.exit()
        env.settle(3)
        env.check(t.done, "the agent has not ended")
        env.settle(later)
        env.s.clock_offset += 10000.0
        env.settle(30)
        env.check(not killed(env), "killed after it had ended")
        alive = [x.name for x in env.s.tasks if not x.done and "Clock" in x.name]
        env.check(not alive, "the watch is still running")
        ex.note(wait, later)

    env.run(main)


def readings(ex):
    """The jump right before any reading of the clock, by any thread: nothing else can tell when it happened."""
    jumps, n = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        j = ex.pick(jumps, label="jump")
        m, t = launch(env)
        env.settle(0.5)  # the watch has begun
        count = [0]

        def on_time():
            count[0] += 1
            if count[0] <= n and not env.s.clock_offset and ex.choose(2, label="now"):
                env.s.clock_offset += j
                ex.note(count[0])
        env.s.on_time = on_time
        env.settle(n)
        env.s.on_time = None
        if not env.s.clock_offset:
            env.check(not killed(env), "killed without a jump")
            return
        env.settle(5)
        env.check(killed(env) == (j > 180), "a jump of %r: killed %r", j, killed(env))
        ex.note(j)

    env.run(main)


def readings_two(ex):
    """A smaller adjustment right before one reading of the clock, a jump right before a later one."""
    small, n = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        js = [ex.pick(small, label="adjustment"), 200.0]
        m, t = launch(env)
        env.settle(0.5)
        count = [0]

        def on_time():
            count[0] += 1
            if js and count[0] <= n and ex.choose(2, label="now"):
                env.check(not killed(env), "killed too early")
                env.s.clock_offset += js.pop(0)
                ex.note(count[0])
        env.s.on_time = on_time
        env.settle(n)
        env.s.on_time = None
        if js:
            env.check(not killed(env), "killed without a jump")
            return
        env.settle(5)
        env.check(killed(env), "no restart")

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("one", histories, 0, (1, BIG, SMALL, PHASES), about="one adjustment"),
        Family("two", histories, 0, (2, BIG, SMALL, PHASES if deep else PHASES[1:4]), about="two adjustments"),
        Family("more", histories, 0, (4 if deep else 3, [200.0], [150.0, 177.0, -181.5, -3600.0], PHASES[:3]), about="more adjustments"),
        Family("running", running, 0, about="ordinary running"),
        Family("busy", busy, 0, about="whatever the agent does"),
        Family("ended", ended, 0, about="after the end"),
        Family("readings", readings, 0, ([200.0, 3600.0, 170.0, -200.0, -3600.0], 60 if deep else 30), about="a jump before any reading of the clock"),
        Family("readings-two", readings_two, 0, ([1.5, 30.0, 150.0, -150.0, -3600.0], 24 if deep else 12), about="two changes, before any readings of the clock"),
    ]
