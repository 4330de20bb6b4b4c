"""C09: service and terminal limits are enforced and every slot is given back."""
import os
import signal

from .. import agent, boot, core, kit, vthread
from ..main import Family

BOOT = {"environ": {"DATAPLICITY_LIMIT_SERVICES": "2", "DATAPLICITY_LIMIT_TERMINALS": "1"}}
M = "dataplicity."
POINTS = (M + "limiter", M + "portforward", M + "m2mmanager", M + "m2m.commandservice", M + "m2m.fileservice",
          M + "m2m.remoteprocess", M + "m2m.proxy")
LIMIT_S, LIMIT_T = 2, 1
SMALL = None


def setup():
    global SMALL
    SMALL = os.path.join(boot.SCRATCH, "small")
    with open(SMALL, "wb") as f:
        f.write(b"small file")
    os.chmod(SMALL, 0o644)


class Rig(object):
    def __init__(self, env):
        self.env = env
        self.sv = env.server
        self.shells = kit.Shells(env, ignores=(signal.SIGHUP,))
        self.cmds = kit.Commands(env)
        self.local = kit.Local(env)
        env.w.listeners[("127.0.0.1", 81)] = "timeout"
        self.next = 10
        self.services = []  # (kind, channel, end object)
        self.terms = []

    def ch(self):
        self.next += 1
        return self.next

    def answers(self, ch):
        return len(self.sv.data(ch)) + len(self.sv.controls(ch)), len(self.sv.closes(ch))

    def effects(self):
        return len(self.env.w.connect_log), len(self.cmds.started), len(self.shells.procs)

    def start(self, kind, expect):
        """Ask for a service; expect None: either way is fine, returns whether it started."""
        env, sv = self.env, self.sv
        ch = self.ch()
        before = self.effects()
        if kind == "fwd":
            kit.open_forward(sv, ch)
        elif kind == "redirect":
            kit.open_redirect(sv, ch, 8000)
        elif kind == "slow":
            kit.open_forward(sv, ch, b"ext")
        elif kind == "refused":
            kit.open_redirect(sv, ch, 9999)
        elif kind == "cmd":
            kit.open_command(sv, ch)
        elif kind == "term":
            kit.open_term(sv, ch)
        elif kind == "file":
            kit.open_file(sv, ch, SMALL.encode())
        elif kind == "file-missing":
            kit.open_file(sv, ch, b"/nonexistent/x")
        env.settle()
        after = self.effects()
        n, closes = self.answers(ch)
        started = after != before
        if kind == "file":
            started = sv.data(ch) == b"small file"
        elif kind == "file-missing":
            started = [c.get("status") for c in sv.controls(ch)] == ["ioerror"]
        if expect is True:
            env.check(started, "%s on channel %d was refused below the limit (running: %r %r)", kind, ch,
                      [s[:2] for s in self.services], [t[:1] for t in self.terms])
        elif expect is False:
            env.check(not started, "%s on channel %d was started beyond the limit (running: %r %r)", kind, ch,
                      [s[:2] for s in self.services], [t[:1] for t in self.terms])
        if not started:
            env.check(n > 0 and closes > 0, "%s on channel %d was refused without a reply (%d) or a close (%d)",
                      kind, ch, n, closes)
        elif kind in ("fwd", "redirect"):
            self.services.append((kind, ch, self.local.conns[-1]))
        elif kind == "cmd":
            self.services.append((kind, ch, self.cmds.started[-1]))
        elif kind == "slow":
            self.services.append((kind, ch, None))
        elif kind == "term":
            self.terms.append((ch, self.shells.procs[-1]))
        return started

    def end(self, i, how):
        kind, ch, o = self.services.pop(i)
        if how == "channel":
            self.sv.close_channel(ch)
        elif kind in ("fwd", "redirect"):
            o.server_reset() if how == "hard" else o.server_close()
        elif kind == "cmd":
            o.proc.exit(0, 9) if how == "hard" else o.proc.exit(3)

    def end_term(self, how):
        ch, p = self.terms.pop()
        if how == "channel":
            self.sv.close_channel(ch)
        else:
            p.exit(0)

    def settle(self, seconds=40):
        self.env.settle(seconds)
        # connects that time out are over by now
        self.services = [s for s in self.services if s[0] != "slow"]

    def probe(self):
        """What is left is there, and no more; when everything has ended, the whole capacity is."""
        while len(self.services) < LIMIT_S:
            self.start("fwd", True)
        self.start("fwd", False)
        if not self.terms:
            self.start("term", True)
        self.start("term", False)
        for s in list(self.services):
            self.end(0, "soft")
        while self.terms:
            self.end_term("channel")
        self.settle()
        for t in self.env.s.thread_errors:
            self.env.check("Limiter" not in str(t), "more was given back than taken: %r", t)
        if not self.sv.up:
            raise core.HarnessError("not connected")
        self.start("fwd", True)
        self.start("term", True)
        self.start("cmd", True)
        for k in ("fwd", "cmd", "file", "redirect"):
            self.start(k, False)
        self.start("term", False)


def histories(ex):
    depth, prefix = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        r = Rig(env)
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = ["fwd", "redirect", "slow", "refused", "cmd", "cmd-fails", "file", "file-missing", "term", "term-fails",
                    "drop"]
            menu += ["nothread-" + k for k in ("fwd", "cmd", "term", "file", "redirect")]
            menu += ["end%d-%s" % (i, h) for i in range(len(r.services)) for h in ("soft", "hard", "channel")
                     if r.services[i][0] != "slow"]
            if r.terms:
                menu += ["term-soft", "term-channel"]
            ev = prefix[step] if step < len(prefix) else ex.pick(menu, label="event")
            ex.note(ev)
            room = len(r.services) < LIMIT_S
            if ev in ("fwd", "redirect", "slow", "refused", "cmd", "file", "file-missing"):
                r.start(ev, room)
            elif ev == "cmd-fails":
                env.w.popen = None
                ch = r.ch()
                kit.open_command(sv, ch)
                env.settle()
                env.check(r.answers(ch)[0] and r.answers(ch)[1], "a failed command is not answered and closed: %r",
                          r.answers(ch))
                env.w.popen = r.cmds.popen
            elif ev == "term":
                r.start(ev, len(r.terms) < LIMIT_T)
            elif ev == "term-fails":
                env.w.ptyfork = None
                kit.open_term(sv, r.ch())
                env.settle()
                env.w.ptyfork = r.shells.fork
            elif ev == "drop":
                sv.disconnect(agent.ENDS[step % 3])
                sv.connect()
                r.services = []
                r.terms = []
            elif ev.startswith("nothread-"):
                vthread.HOOK.thread_start_fault = lambda: True
                r.start(ev[9:], False)
                vthread.HOOK.thread_start_fault = None
            elif ev in ("term-soft", "term-channel"):
                r.end_term(ev[5:])
            else:
                r.end(int(ev[3]), ev[5:])
            if ev in ("slow", "nothread-term"):
                if ex.choose(2, label="wait"):
                    r.settle()
            else:
                env.settle()
                if ev not in ("fwd", "redirect", "cmd", "file", "file-missing", "refused"):
                    r.settle()
        r.settle()
        r.probe()

    env.run(main)


def races(ex):
    """Two services end in their own ways at the moment further ones are asked for."""
    first, how, then = ex.params
    env = agent.Env(ex, points=POINTS, time_horizon=1e6)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        sv = env.server
        r = Rig(env)
        for k in first:
            r.start(k, True)
        env.s.preempt = True
        for h in how:
            r.end(0, h)
        chans = []
        n0 = len(r.cmds.started) + len(env.w.connect_log)
        for k in then:
            ch = r.ch()
            chans.append((k, ch))
            if k == "fwd":
                kit.open_forward(sv, ch)
            elif k == "cmd":
                kit.open_command(sv, ch)
            elif k == "redirect":
                kit.open_redirect(sv, ch, 8000)
        env.settle(1)
        env.s.preempt = False
        env.settle(20)
        started = len(r.cmds.started) + len(env.w.connect_log) - n0
        refused = 0
        for k, ch in chans:
            n, closes = r.answers(ch)
            if n or closes:
                env.check(n and closes, "%s on %d: answer %r, closes %r", k, ch, n, closes)
                refused += 1
        env.check(started + refused == len(then), "%d started and %d refused of %d", started, refused, len(then))
        env.check(started <= LIMIT_S, "%d services run at once", started)
        ex.note(started, refused)
        # whatever started ends with the connection
        sv.disconnect()
        sv.connect()
        r.settle()
        r.services = []
        r.probe()

    env.run(main)


def limiter(ex):
    """The limiter itself, entered and left by several threads."""
    fail, limit, users = ex.params
    env = agent.Env(ex, points=(M + "limiter",))

    def main():
        from dataplicity.limiter import Limiter
        lim = Limiter("test", limit)
        held = [0]
        got = []

        def user(i):
            for _ in range(2):
                try:
                    with lim():
                        held[0] += 1
                        env.check(held[0] <= limit, "%d hold a slot at once", held[0])
                        if fail and i == 0:
                            held[0] -= 1
                            raise IOError("thread did not start")
                except IOError:
                    continue
                except Exception as e:
                    env.check(type(e).__name__ == "LimitReached", "unexpected %r", e)
                    continue
                got.append(i)
                env.s.point("hold")
                held[0] -= 1
                lim.decrement()
        for i in range(users):
            env.s.spawn(lambda i=i: user(i), "user%d" % i, kind="agent")
        env.settle()
        env.check(not env.s.thread_errors, "failed: %r", env.s.thread_errors)
        env.s.preempt = False
        for _ in range(limit):
            lim.increment()
        try:
            lim.increment()
        except Exception:
            pass
        else:
            env.fail("a slot beyond the limit")
        ex.note(got)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    return [
        Family("histories", histories, 0, (4 if deep else 3, ()), about="starts, ends, failures, drops; then a probe"),
        Family("cycles", histories, 0, (core.Cycled(3, 30) if deep else core.Cycled(2, 30), ()), about="the same few events, over and over"),
        Family("histories-full", histories, 0, (6, ("fwd", "cmd", "term")), about="from full occupation"),
        Family("limiter", limiter, 3 if deep else 2, (False, 2, 3), about="the limiter alone"),
        Family("limiter-two", limiter, 4 if deep else 3, (False, 1, 2), about="the limiter alone, two users of one place"),
        Family("limiter-fail", limiter, 3 if deep else 2, (True, 2, 3), about="the limiter alone, with failing users"),
        Family("race-fwd", races, b, (("fwd", "fwd"), ("soft",), ("fwd", "fwd")), about="end against start"),
        Family("race-cmd", races, b - 1, (("cmd", "cmd"), ("hard",), ("cmd", "fwd")), about="end against start"),
        Family("race-mixed", races, b - 1, (("cmd", "fwd"), ("channel", "hard"), ("redirect", "cmd", "fwd")),
               about="two ends against three starts"),
    ]
