"""C15: a terminal's process ends with its channel, is reaped, and only it is signalled."""
import signal

from .. import agent, core, kit, vos
from ..main import Family

M = "dataplicity."
POINTS = (M + "m2m.remoteprocess", M + "m2m.proxy", M + "m2mmanager", M + "m2m.wsclient")
HUP, KILL = int(signal.SIGHUP), int(signal.SIGKILL)


class Term(object):
    def __init__(self, rig, ch):
        self.rig, self.ch = rig, ch
        self.n = None
        self.closed = None  # when the channel closed
        self.opened = rig.env.s.now
        self.died = None

    def dead(self):
        self.died = self.rig.env.s.now


class Rig(object):
    """Terminals, the processes behind them, and what must have happened to each."""

    def __init__(self, env):
        self.env = env
        self.shells = kit.Shells(env)
        self.terms = []
        self.open = {}
        self.waiting = []  # opened, not yet forked
        self.shells.on_fork = None
        real = self.shells.fork

        def fork():
            r = real()
            p = self.shells.procs[-1]
            t = self.waiting.pop(0)
            t.p = p
            t.n = len(self.shells.procs) - 1
            t.forked = env.s.now
            p.on_death.append(t.dead)
            p.ignores = set(self.ignores)
            p.unkillable = self.unkillable
            return r
        env.w.ptyfork = fork
        self.ignores = ()
        self.unkillable = False

    def launch(self, ch):
        t = Term(self, ch)
        self.terms.append(t)
        self.waiting.append(t)
        self.open[ch] = t
        kit.open_term(self.env.server, ch)
        return t

    def close(self, ch):
        self.env.server.close_channel(ch)
        self.open.pop(ch).closed = self.env.s.now

    def drop(self):
        self.env.server.disconnect()
        for ch in list(self.open):
            self.open.pop(ch).closed = self.env.s.now

    def alive(self):
        return [t for t in self.terms if t.n is not None and t.p.alive]

    def verify(self):
        env = self.env
        now = env.s.now
        env.check(not env.w.foreign_signals, "signals sent to processes that are not (any more) ours: %r", env.w.foreign_signals)
        for t in self.terms:
            if t.n is None:
                continue
            p = t.p
            sigs = [s for _, s in p.signals]
            env.check(set(sigs) <= {HUP, KILL}, "signals %r", sigs)
            if t.closed is None:
                env.check(not sigs, "the terminal on %d is open but its process was sent %r", t.ch, sigs)
                env.check(not p.reaped or not p.alive, "reaped alive")
                continue
            since = max(t.closed, t.forked)
            env.check(all(w >= t.closed for w, _ in p.signals), "signalled before its channel closed: %r", p.signals)
            was_dead = t.died is not None and t.died <= since and not (sigs and p.signals[0][0] <= t.died)
            hups = sigs.count(HUP)
            if was_dead:
                env.check(hups <= 1, "%d hang-ups", hups)
            elif now > since + 1:
                env.check(hups == 1, "the process on %d was sent %d hang-ups (channel closed at %.1f)", t.ch, hups, since)
                env.check(sigs[0] == HUP and p.signals[0][0] <= since + 1, "the hang-up came late: %r", p.signals)
            kills = [w for w, s in p.signals if s == KILL]
            end = t.died
            if end is not None and end < since + 15 and not (kills and kills[0] <= end):
                env.check(not kills, "killed %r though it ended by itself %.1f s after the close", kills, end - since)
            elif now > since + 20 and (end is None or end > since + 20 or kills):
                env.check(len(kills) == 1, "%d kills of a process that ignores hang-ups", len(kills))
            for w in kills:
                env.check(since + 15 <= w <= since + 20, "killed %.1f s after the close", w - since)
            if end is not None and now > max(end, since) + 5:
                env.check(p.reaped, "the process on %d ended %.1f s ago and was not reaped", t.ch, now - end)

    def finish(self):
        self.env.fresh()
        self.verify()
        self.env.settle(30)
        self.verify()
        for t in self.terms:
            if t.closed is not None and t.n is not None and not self.unkillable:
                self.env.check(not t.p.alive and t.p.reaped, "the process on %d: alive %r, reaped %r", t.ch, t.p.alive, t.p.reaped)


def start(env):
    env.start_agent()
    rig = Rig(env)
    env.up()
    return rig


def histories(ex):
    """Every order of opening, closing, dropping, ending and waiting; processes that heed or ignore hang-ups."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        rig = start(env)
        sv = env.server
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = ["wait1", "wait10", "wait20"]
            if sv.up:
                if len(rig.open) < 2:
                    menu += ["open", "open-stubborn"]
                menu += ["close%d" % ch for ch in sorted(rig.open)]
                menu += ["drop"]
            menu += ["exit%d" % i for i, t in enumerate(rig.alive())]
            if rig.open:
                menu += ["output"]
            ev = ex.pick(menu, label="event")
            ex.note(ev)
            if ev.startswith("open"):
                ch = min({3, 4, 5} - set(rig.open))
                rig.ignores = (HUP,) if ev == "open-stubborn" else ()
                rig.launch(ch)
            elif ev.startswith("close"):
                rig.close(int(ev[5:]))
            elif ev == "drop":
                rig.drop()
                env.settle(40)
                env.up()
            elif ev.startswith("wait"):
                env.settle(int(ev[4:]))
            elif ev.startswith("exit"):
                rig.alive()[int(ev[4:])].p.exit(0)
            elif ev == "output":
                for t in rig.open.values():
                    if t.n is not None and t.p.alive:
                        t.p.pty.out += b"x" * 5000
            env.settle()
            rig.verify()
        rig.finish()
        env.ping()

    env.run(main)


def endings(ex):
    """A process that ends at every moment of the 20 seconds after the hang-up, or survives its kill."""
    at = ex.pick([None] + [x / 4.0 for x in range(0, 84)], label="ends at")
    later = ex.pick([0, 7, 100, 5000] if at is None else [0], label="unkillable for")
    how = ex.pick(["close", "drop"], label="how")
    other = ex.pick([False, True], label="another terminal")
    env = agent.Env(ex, preempt=False, time_horizon=1e6, horizon=400000)

    def main():
        rig = start(env)
        rig.ignores = (HUP,)
        rig.unkillable = bool(later)
        t = rig.launch(3)
        env.settle()
        if other:
            rig.unkillable = False
            rig.launch(4)
            env.settle()
        env.settle(3)
        rig.drop() if how == "drop" else rig.close(3)
        if at is not None:
            env.settle(at)
            t.p.exit(1)
        else:
            env.settle(17)
        if later:
            env.settle(later)
            env.check(t.p.alive, "harness: it is unkillable")
            rig.verify()
            env.fresh()
            t.p.exit(0, KILL)
            env.settle(6)
            env.check(t.p.reaped, "the process was not reaped when it ended at last")
        rig.unkillable = False
        rig.finish()
        ex.note(at, later, how, other)

    env.run(main)


def clocks(ex):
    """The clock is set while a process is given the time to end."""
    step = ex.pick([-3600.0, -1e8, -8.0, 8.0, 100.0, 170.0], label="set")
    when = ex.pick([-1.0, 0.0, 1.0, 5.0, 14.0], label="when")
    at = ex.pick([None, 1.0, 5.5, 9.5, 13.5, 14.9], label="ends at")
    env = agent.Env(ex, preempt=False, time_horizon=1e6, horizon=400000)

    def main():
        rig = start(env)
        rig.ignores = (HUP,)
        env.s.clock_offset = 0.0
        t = rig.launch(3)
        env.settle(3)

        def set_clock():
            if when > 0:
                core.S.sleep(when)
            env.s.clock_offset = step
        if when < 0:
            set_clock()
        rig.close(3)
        if when >= 0:
            env.s.spawn(set_clock, "clock", kind="env")
        if at is not None:
            env.settle(at)
            t.p.exit(1)
        rig.verify()
        env.settle(21)
        rig.verify()
        rig.finish()
        ex.note(step, when, at)

    env.run(main)


def chatty(ex):
    """A process that never stops writing ends with its channel all the same."""
    every = ex.pick([0.01, 0.5, 3.0, 6.0], label="every")
    piece = ex.pick([b"y\r\n", b"y\r\n" * 1000], label="piece")
    stubborn = ex.pick([False, True], label="ignores hang-ups")
    how = ex.pick(["close", "drop", "exit"], label="end")
    env = agent.Env(ex, preempt=False, time_horizon=1e6, horizon=400000)

    def main():
        rig = start(env)
        sv = env.server
        if stubborn:
            rig.ignores = (HUP,)
        t = rig.launch(3)
        env.settle()
        pty = rig.shells.ptys[-1]
        shown = bytearray()

        def feed():
            if len(pty.out) < 4096:
                pty.out.extend(piece)
                shown.extend(piece)
        kit.chatter(env, feed, lambda: t.p.alive, every)
        env.settle(20)
        env.check(len(sv.data(3)) >= len(shown) - len(piece) and shown, "%d of %d bytes were sent", len(sv.data(3)), len(shown))
        rig.verify()
        if how == "close":
            rig.close(3)
        elif how == "drop":
            rig.drop()
        else:
            t.p.exit(0)
            env.settle()
            env.check(sv.data(3) == bytes(shown), "%d of %d bytes were sent", len(sv.data(3)), len(shown))
            rig.close(3)
        rig.finish()
        left = [k for k in env.s.tasks if not k.done and k.kind == "agent" and "RemoteProcess" in k.name or
                not k.done and "PidWait" in k.name]
        env.check(not left, "threads are left: %r", left)
        ex.note(every, len(piece), stubborn, how)

    env.run(main)


def pids(ex):
    """The number of a process that is gone belongs to another one: it is left alone, and so is its status."""
    how = ex.pick(["heeds", "ignores", "exits", "lingers"], label="the first ends")
    after = ex.pick([0, 1, 2.5, 5, 16], label="the other starts")
    kind = ex.pick(["terminal", "command"], label="the other")
    life = ex.pick([1, 3, 14, 30], label="the other lives for")
    stay = ex.pick([False, True], label="another one stays")
    env = agent.Env(ex, preempt=False, time_horizon=1e6, horizon=400000)

    def main():
        rig = start(env)
        cmds = kit.Commands(env)
        sv = env.server
        env.w.reuse_pids = True
        if stay:
            rig.launch(9)
            env.settle()
        if how in ("ignores", "lingers"):
            rig.ignores = (HUP,)
        t = rig.launch(3)
        env.settle()
        rig.ignores = ()
        if how == "exits":
            t.p.exit(0)
            env.settle()
        rig.close(3)
        if how == "lingers":
            env.settle(9)
            t.p.exit(1)
        while not t.p.reaped:
            env.settle(0.5)
            env.check(env.s.now < t.closed + 30, "never reaped")
        rig.verify()
        env.settle(after)
        if kind == "terminal":
            o = rig.launch(4)
            env.settle()
            p = o.p
        else:
            kit.open_command(sv, 4)
            env.settle()
            p = cmds.started[0].proc
        env.check(p.pid == t.p.pid, "harness: the number is used again")
        env.settle(life)
        env.check(p.alive and not p.signals, "a process that has the number of an earlier one was sent %r", p.signals)
        p.exit(5)
        if kind == "terminal":
            env.settle(3)
            env.check(not p.reaped and not p.signals, "somebody else waited for it")
            rig.close(4)
        else:
            env.settle(3)
            ctl = sv.controls(4)
            env.check([k["returncode"] for k in ctl] == [5], "reported %r of a command that returned 5", ctl)
        rig.finish()
        ex.note(how, after, kind, life, stay)

    env.run(main)


def races(ex):
    """Opening, closing, ending and reusing, statement by statement."""
    how = ex.params
    env = agent.Env(ex, points=POINTS, time_horizon=1e5)

    def main():
        env.s.preempt = False
        rig = start(env)
        sv = env.server
        env.s.preempt = True
        if how == "launch-close":
            rig.launch(3)
            rig.close(3)
        elif how == "launch-drop":
            rig.launch(3)
            rig.drop()
        elif how == "launch-data-close":
            rig.launch(3)
            sv.route(3, b"exit\n")
            rig.close(3)
        elif how == "exit-close":
            env.s.preempt = False
            t = rig.launch(3)
            env.settle()
            env.s.preempt = True
            rig.close(3)
            t.p.exit(0)
        elif how == "close-two":
            env.s.preempt = False
            rig.launch(3)
            env.settle()
            rig.launch(4)
            env.settle()
            env.s.preempt = True
            rig.close(3)
            rig.close(4)
        elif how == "reopen":
            env.s.preempt = False
            rig.launch(3)
            env.settle()
            env.s.preempt = True
            rig.close(3)
            rig.launch(3)
        elif how == "late-death":
            env.s.preempt = False
            rig.ignores = (HUP,)
            t = rig.launch(3)
            env.settle()
            rig.close(3)
            env.settle(15)
            n = env.w.waits
            env.s.preempt = True
            env.s.block(lambda: env.w.waits > n)
            if t.p.alive:
                t.p.exit(0)
        elif how == "shutdown":
            # the agent's own shutdown meets the closing of a channel
            env.s.preempt = False
            rig.launch(3)
            env.settle()
            rig.launch(4)
            env.settle()
            env.s.preempt = True
            rig.close(3)
            term = rig.open.pop(4)
            term.closed = env.s.now
            env.client.m2m.on_client_close()
        env.settle(1)
        env.s.preempt = False
        rig.finish()
        ex.note(how, [[s for _, s in t.p.signals] for t in rig.terms if t.n is not None])

    env.run(main)


def failures(ex):
    """The process can not be forked, or its parts fail: no signal goes astray."""
    kind = ex.pick(["fork", "ioctl", "exec"], label="failure")
    env = agent.Env(ex, preempt=False)

    def main():
        rig = start(env)
        fork = env.w.ptyfork
        if kind == "fork":
            def bad():
                rig.waiting.pop(0)
                raise OSError(11, "no")
            env.w.ptyfork = bad
        rig.launch(3)
        if kind == "exec":
            env.s.settle()
            rig.terms[0].p.exit(1)
        env.settle()
        env.w.ptyfork = fork
        rig.launch(4)
        env.settle(1)
        rig.close(3)
        env.settle(1)
        rig.verify()
        rig.close(4)
        rig.finish()
        ex.note(kind)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    out = [
        Family("histories", histories, 0, 6 if deep else 4, about="every order of events of up to two terminals"),
        Family("cycles", histories, 0, core.Cycled(3, 30) if deep else core.Cycled(2, 30), about="the same few events, over and over"),
        Family("endings", endings, 0, about="every moment of ending after a hang-up"),
        Family("clocks", clocks, 0, about="the clock is set meanwhile"),
        Family("pids", pids, 0, about="process numbers used again"),
        Family("chatty", chatty, 0, about="never ending output"),
        Family("failures", failures, 0, about="launches that fail"),
    ]
    for h in ("launch-close", "launch-drop", "launch-data-close", "exit-close", "close-two", "reopen", "late-death", "shutdown"):
        out.append(Family("race-" + h, races, b - (h in ("close-two", "reopen", "shutdown")), h, about=h))
    return out
