"""C14: a command's output, return code and end are reported, exactly once."""
import signal

from .. import agent, core, kit, vthread
from ..main import Family

M = "dataplicity."
POINTS = (M + "m2m.commandservice", M + "m2m.wsclient", M + "limiter")


def blob(n, k=0):
    one = bytes(bytearray((j * 11 + k + j // 255) & 255 for j in range(min(n, 5003))))
    return (one * (n // max(1, len(one)) + 1))[:n]


class Cmd(object):
    """One requested command and what it does."""

    def __init__(self, env, cmds, ch, line=b"cmd"):
        self.env, self.cmds, self.ch = env, cmds, ch
        self.line = line
        self.out = b""
        self.first = len(env.server.sent)
        self.n = len(cmds.started)
        self.code = None
        self.ended = None  # virtual time of the exit
        self.closed = None
        kit.open_command(env.server, ch, line)

    @property
    def p(self):
        return self.cmds.started[self.n]

    def feed(self, d):
        self.p.stdout.feed(d)
        self.out += d

    def err(self, d):
        self.p.stderr.feed(d)

    def exit(self, code=0, sig=0):
        self.p.proc.exit(code, sig)
        self.code = -sig if sig else code
        self.ended = self.env.s.now

    def messages(self):
        P = agent.P
        return [s for s in self.env.server.sent[self.first:] if s.type in (
            P["request_send"], P["request_send_control"], P["request_close"]) and s.fields[0] == self.ch]

    def verify(self, killed=False):
        """The command has ended: everything was reported once, in order."""
        env, P = self.env, agent.P
        ms = self.messages()
        types = [m.type for m in ms]
        out = b"".join(m.fields[1] for m in ms if m.type == P["request_send"])
        env.check(out == self.out, "%r sent %r, not %r", self.line, out[:100], self.out[:100])
        env.check(types.count(P["request_close"]) == 1 and types[-1] == P["request_close"],
                  "%r: the channel was closed %d times (messages %r)", self.line, types.count(P["request_close"]), types[-5:])
        import json
        ctl = [json.loads(m.fields[1].decode("utf-8")) for m in ms if m.type == P["request_send_control"]]
        want = {"service": "command", "type": "complete", "returncode": self.code}
        env.check(ctl == [want], "%r: reported %r, not %r", self.line, ctl, want)
        env.check(types[-2] == P["request_send_control"], "%r: output after completion", self.line)
        env.check(not [s for s in self.p.proc.signals], "%r ended by itself but got signals %r", self.line,
                  self.p.proc.signals)

    def silent(self):
        return not [m for m in self.messages() if m.type != agent.P["request_send"]]


def threads(env):
    return [t for t in env.s.tasks if t.name == "CommandService" and not t.done]


def start(env):
    env.start_agent()
    env.up()
    return kit.Commands(env)


def histories(ex):
    """Every order of output, error output, hang-ups, pauses, exit and close."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        cmds = start(env)
        sv = env.server
        c = Cmd(env, cmds, 3)
        env.settle()
        p = c.p
        env.check(env.w.popen_log[0]["args"] == "cmd" and env.w.popen_log[0]["shell"], "ran %r", env.w.popen_log)
        hup_out = None
        for step in range(depth):
            env.fresh()
            menu = ["pause", "long", "exit0", "exit7", "die", "close", "drop"]
            if p.stdout.writers:
                menu += ["out", "outs", "hup-out"]
            if p.stderr.writers:
                menu += ["err", "hup-err"]
            ev = ex.pick(menu, label="event")
            ex.note(ev)
            if ev == "out":
                c.feed(b"o%d\n" % step)
            elif ev == "outs":
                c.feed(b"p%d" % step)
                env.settle()
                c.feed(b"q%d\r\n\x00\xff" % step)
            elif ev == "err":
                c.err(b"e%d\n" % step)
            elif ev == "hup-out":
                p.stdout.hangup()
                hup_out = env.s.now
            elif ev == "hup-err":
                p.stderr.hangup()
            elif ev == "pause":
                env.settle(0.3)
            elif ev == "long":
                env.settle(30)
            elif ev.startswith("exit"):
                c.exit(int(ev[4:]))
            elif ev == "die":
                c.exit(0, signal.SIGSEGV)
            elif ev == "close":
                sv.close_channel(3)
                c.closed = env.s.now
            elif ev == "drop":
                sv.disconnect(agent.ENDS[step % 3])
                c.closed = env.s.now
            if ex.choose(2, label="pile") == 0:
                env.settle()
            if c.ended is not None or c.closed is not None or (hup_out is not None and env.s.now - hup_out > 1.5):
                break
        if c.closed is not None:
            # the channel is gone: the command is killed, soon
            env.settle(3)
            env.check(not p.proc.alive, "the channel closed but the command runs on")
            env.check(not threads(env), "the service runs on")
            sent = len(sv.sent)
            env.settle(10)
            env.check(len(sv.sent) == sent, "a closed channel sends: %r", sv.sent[sent:])
            out = sv.data(3)
            env.check(c.out.startswith(out), "sent %r of %r", out, c.out)
            env.check(c.ended is not None or [s for _, s in p.proc.signals] == [signal.SIGKILL], "signals %r", p.proc.signals)
        elif c.ended is not None:
            env.settle(3)
            c.verify()
            env.check(not threads(env), "the service runs on")
            env.check(p.proc.reaped, "the process was not reaped")
        elif hup_out is not None:
            # it closed its output and goes on: the end of the service, one way or another
            env.settle(5)
            env.check(not threads(env), "the output ended but the service runs on")
            env.check(not p.proc.alive, "the command was left running without its service")
            env.check(sv.data(3) == c.out, "sent %r, not %r", sv.data(3), c.out)
            env.check(len(sv.closes(3)) == 1 and len([k for k in sv.controls(3) if k["type"] == "complete"]) == 1,
                      "reported %r, closed %d times", sv.controls(3), len(sv.closes(3)))
            env.check(sv.controls(3)[-1].get("returncode", 0) is None,
                      "reported %r of a command that had not ended", sv.controls(3))
        else:
            env.settle(30)
            env.check(c.silent(), "a running command was reported as ended: %r", sv.controls(3))
            env.check(sv.data(3) == c.out, "sent %r, not %r", sv.data(3), c.out)
            env.check(p.proc.alive and not p.proc.signals, "a running command was signalled")
            c.exit(5)
            env.settle(3)
            c.verify()
        if sv.up:
            env.ping()

    env.run(main)


SIZES = [0, 1, 100, 4096, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20]


def sizes(ex):
    """Outputs of every size, in one piece or two, left in the pipe when the command ends."""
    n = ex.pick(SIZES, label="size")
    m = ex.pick([0, 1, 70000], label="rest")
    err = ex.pick([0, 5, 200000], label="error output")
    read = ex.pick([None, 65536], label="pipe size")
    code = ex.pick([0, 1, 255], label="code")
    env = agent.Env(ex, preempt=False, horizon=300000)

    def main():
        cmds = start(env)
        c = Cmd(env, cmds, 8)
        env.settle()
        c.p.stdout.max_read = read
        c.p.stderr.max_read = read
        c.feed(blob(n))
        c.err(blob(err))
        if ex.choose(2, label="pause"):
            env.settle()
        c.feed(blob(m, 9))
        c.exit(code)
        env.settle(4)
        c.verify()
        ex.note(n, m, err, read, code)

    env.run(main)


CAPACITY = 65536


def filling(ex):
    """A command that fills its pipes waits for the agent to read them; it always goes on and ends."""
    plan = [ex.pick([("err", 5), ("err", CAPACITY), ("err", 3 * CAPACITY + 1), ("out", 7), ("out", 2 * CAPACITY + 3), ("pause", 0)],
                    label="write") for _ in range(ex.params)]
    env = agent.Env(ex, preempt=False, horizon=300000, time_horizon=1e6)

    def main():
        cmds = start(env)
        c = Cmd(env, cmds, 8)
        env.settle()
        p = c.p
        for k, (what, n) in enumerate(plan):
            ex.note(what, n)
            if what == "pause":
                env.settle(1.2)
                continue
            pipe = p.stderr if what == "err" else p.stdout
            data = blob(n, k)
            while data:
                free = CAPACITY - len(pipe.buf)
                if free <= 0:
                    env.settle(1)
                    free = CAPACITY - len(pipe.buf)
                    env.check(free > 0, "the command waits for its %s output to be read: it never ends", what)
                if what == "out":
                    c.out += data[:free]
                pipe.feed(data[:free])
                data = data[free:]
        c.exit(9)
        env.settle(3)
        c.verify()

    env.run(main)


def chatty(ex):
    """A command that never stops writing is ended with its channel all the same."""
    what = ex.pick(["out", "err", "both"], label="writes to")
    every = ex.pick([0.01, 0.1, 0.4, 0.6, 2.0], label="every")
    piece = ex.pick([b"y\n", b"y\n" * 20000], label="piece")
    how = ex.pick(["close", "drop", "exit", "hup"], label="end")
    env = agent.Env(ex, preempt=False, horizon=300000, time_horizon=1e5)

    def main():
        cmds = start(env)
        sv = env.server
        c = Cmd(env, cmds, 8)
        env.settle()
        p = c.p
        gone = []

        def feed():
            if what != "err" and len(p.stdout.buf) + len(piece) <= CAPACITY:
                c.feed(piece)
            if what != "out" and len(p.stderr.buf) + len(piece) <= CAPACITY:
                c.err(piece)
        kit.chatter(env, feed, lambda: p.proc.alive and not gone, every)
        env.settle(3)
        env.check(c.silent() and not p.proc.signals, "a running command was ended")
        env.check(len(sv.data(8)) >= len(c.out) - len(piece), "sent %d of %d bytes", len(sv.data(8)), len(c.out))
        if how == "close":
            sv.close_channel(8)
        elif how == "drop":
            sv.disconnect()
        elif how == "exit":
            c.exit(4)
        else:
            gone.append(1)
            p.stdout.hangup()
            env.s.sleep(0.2)
            c.exit(6)
        env.settle(3)
        env.check(not threads(env), "the service runs on")
        env.check(not p.proc.alive, "the command runs on")
        if how in ("exit", "hup"):
            c.verify()
        else:
            env.check(c.out.startswith(sv.data(8)), "sent %d bytes of %d", len(sv.data(8)), len(c.out))
        if sv.up:
            env.ping()
        ex.note(what, every, len(piece), how)

    env.run(main)


def background(ex):
    """A command that ends, while something it started keeps its output open."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e5)

    def main():
        cmds = start(env)
        sv = env.server
        c = Cmd(env, cmds, 8)
        env.settle()
        p = c.p
        del p.proc.on_death[:]
        for step in range(depth):
            env.fresh()
            menu = ["pause", "close"]
            if p.proc.alive:
                menu += ["exit"]
            if p.stdout.writers:
                menu += ["out", "end-out"]
            if p.stderr.writers:
                menu += ["err", "end-err"]
            ev = ex.pick(menu, label="event")
            ex.note(ev)
            if ev == "out":
                c.feed(b"o%d\n" % step)
            elif ev == "err":
                c.err(b"e%d\n" % step)
            elif ev == "end-out":
                p.stdout.hangup()
            elif ev == "end-err":
                p.stderr.hangup()
            elif ev == "pause":
                env.settle(2)
            elif ev == "exit":
                c.exit(5)
            elif ev == "close":
                sv.close_channel(8)
                c.closed = True
            if ex.choose(2, label="pile") == 0:
                env.settle()
            if c.closed or not p.stdout.writers:
                break
        env.settle(5)
        if c.closed:
            env.check(not threads(env) and not p.proc.alive, "the service, or its command, runs on")
            env.check(c.out.startswith(sv.data(8)), "sent %r of %r", sv.data(8), c.out)
        elif p.stdout.writers:
            env.check(sv.data(8) == c.out, "sent %r, not %r", sv.data(8), c.out)
            env.check(c.silent() and not p.proc.signals, "ended, with its output open")
            if p.proc.alive:
                c.exit(5)
            env.settle(2)
            c.feed(b"the last of it")
            p.stdout.hangup()
            env.settle(2)
            c.verify()
        elif c.ended is not None:
            c.verify()
        else:
            env.check(not threads(env) and not p.proc.alive and len(sv.closes(8)) == 1, "the service, or its command, runs on")
            env.check(sv.data(8) == c.out, "sent %r, not %r", sv.data(8), c.out)
        env.check(not env.w.foreign_signals, "signals to others: %r", env.w.foreign_signals)
        env.ping()

    env.run(main)


def codes(ex):
    """Every return code and signal; the command line is passed on as it is."""
    kind = ex.pick(["code", "signal", "line"], label="kind")
    lines = [b"ls -l", b"", b"echo 'a b' | cat > /dev/null", b"x;y && z", u"\u00e9cho".encode("utf-8"), b"%s %d", b"a\nb",
             b"  spaces  ", b"x" * 5000, b"\"'\\$HOME`id`"]
    v = ex.pick({"code": range(256), "signal": range(1, 32), "line": lines}[kind], label="value")
    env = agent.Env(ex, preempt=False)

    def main():
        cmds = start(env)
        line = v if kind == "line" else b"cmd"
        c = Cmd(env, cmds, 8, line)
        env.settle()
        env.check(len(cmds.started) == 1, "%d commands were started", len(cmds.started))
        rec = env.w.popen_log[0]
        got = rec["args"]
        env.check(got == line.decode("utf-8") and rec["shell"], "ran %r (shell: %r)", got, rec["shell"])
        c.feed(b"out")
        if kind == "signal":
            c.exit(0, v)
        else:
            c.exit(v if kind == "code" else 0)
        env.settle(4)
        c.verify()
        ex.note(kind, v)

    env.run(main)


def failures(ex):
    """Commands that can not be started, and threads that can not; then one that can."""
    kind = ex.pick(["missing", "eagain", "memory", "thread"], label="failure")
    env = agent.Env(ex, preempt=False)

    def main():
        cmds = start(env)
        sv = env.server
        if kind == "thread":
            vthread.HOOK.thread_start_fault = lambda t: True
        elif kind == "missing":
            env.w.popen = None
        else:
            def popen(p, rec):
                raise OSError(11, "no") if kind == "eagain" else MemoryError()
            env.w.popen = popen
        for ch in (3, 4):
            kit.open_command(sv, ch)
            env.settle(3)
            ctl = sv.controls(ch)
            env.check(len(ctl) == 1 and ctl[0]["type"] == "error" and ctl[0]["service"] == "command", "reported %r", ctl)
            env.check(len(sv.closes(ch)) == 1, "closed %d times", len(sv.closes(ch)))
            env.check(not sv.data(ch), "sent %r", sv.data(ch))
        vthread.HOOK.thread_start_fault = None
        env.w.popen = cmds.popen
        c = Cmd(env, cmds, 5)
        env.settle()
        c.n = -1
        c.feed(b"fine")
        c.exit(0)
        env.settle(3)
        c.verify()
        ex.note(kind)

    env.run(main)


def several(ex):
    """Two commands at once; events of both in every order."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        cmds = start(env)
        cs = []
        for ch in (3, 4):
            cs.append(Cmd(env, cmds, ch, b"cmd%d" % ch))
            env.settle()
        live = {0, 1}
        for step in range(depth):
            env.fresh()
            if not live:
                break
            i, ev = ex.pick([(i, e) for i in sorted(live) for e in ("out", "err", "exit", "close")], label="event")
            ex.note(i, ev)
            c = cs[i]
            if ev == "out":
                c.feed(b"%d.%d\n" % (i, step))
            elif ev == "err":
                c.err(b"%d.%d\n" % (i, step))
            elif ev == "exit":
                c.exit(i + 1)
                live.discard(i)
            elif ev == "close":
                env.server.close_channel(c.ch)
                c.closed = env.s.now
                live.discard(i)
            if ex.choose(2, label="pile") == 0:
                env.settle()
        env.settle(4)
        for i, c in enumerate(cs):
            if c.closed is not None:
                env.check(not c.p.proc.alive, "%r runs on", c.line)
            elif c.ended is not None:
                c.verify()
            else:
                env.check(c.silent() and c.p.proc.alive and not c.p.proc.signals, "%r was disturbed", c.line)
                env.check(env.server.data(c.ch) == c.out, "%r sent %r, not %r", c.line, env.server.data(c.ch), c.out)
        env.check(len(threads(env)) == len(live), "%d services for %d commands", len(threads(env)), len(live))

    env.run(main)


def races(ex):
    """Output, exit and close meet the service's loop, statement by statement."""
    how = ex.params
    env = agent.Env(ex, points=POINTS, time_horizon=1e5)

    def main():
        env.s.preempt = False
        cmds = start(env)
        sv = env.server
        env.s.preempt = True
        if how == "fast":
            # it is over before the service looks
            def on_start(p):
                p.stdout.feed(b"fast output")
                p.proc.exit(3)
            cmds.on_start = on_start
            c = Cmd(env, cmds, 3)
            c.out, c.code = b"fast output", 3
        elif how == "close-start":
            c = Cmd(env, cmds, 3)
            sv.close_channel(3)
        else:
            c = Cmd(env, cmds, 3)
            env.s.preempt = False
            env.settle()
            env.s.preempt = True
            c.feed(b"one")
            env.s.point()
            if how == "close":
                sv.close_channel(3)
                c.feed(b"two")
            elif how == "exit":
                c.err(b"error")
                env.s.point()
                c.feed(b"two")
                c.exit(4)
            elif how == "hup-exit":
                c.p.stdout.hangup()
                env.s.point()
                env.settle(0.1)
                c.exit(6)
            elif how == "exit-close":
                c.exit(2)
                sv.close_channel(3)
            elif how == "drop":
                sv.disconnect()
                c.feed(b"two")
        env.settle(1)
        env.s.preempt = False
        env.settle(5)
        env.check(not threads(env), "the service runs on")
        env.check(not c.p.proc.alive and c.p.proc.reaped or how in ("close", "close-start", "drop") and not c.p.proc.alive,
                  "the command: alive %r reaped %r", c.p.proc.alive, c.p.proc.reaped)
        if how in ("fast", "exit", "hup-exit"):
            c.verify()
        else:
            env.check(c.out.startswith(sv.data(3)), "sent %r of %r", sv.data(3), c.out)
            env.check(len(sv.closes(3)) <= 1, "closed %d times", len(sv.closes(3)))
            foreign = env.w.foreign_signals
            env.check(not foreign, "signals to others: %r", foreign)
        if sv.up:
            env.ping()
        ex.note(how, len(sv.data(3)))

    env.run(main)


def clocks(ex):
    """The clock is set while a command runs, closes its output or ends."""
    step = ex.pick([-3600.0, -1e8, 0.9, 170.0], label="set")
    when = ex.pick(["running", "closed", "ending"], label="when")
    end = ex.pick(["exit", "late", "never", "channel"], label="end")
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        cmds = start(env)
        sv = env.server
        env.s.clock_offset = 0.0
        c = Cmd(env, cmds, 3)
        env.settle()
        p = c.p
        c.feed(b"output")
        if when == "running":
            env.settle(0.2)
            env.s.clock_offset = step
        if end != "exit":
            p.stdout.hangup()
        env.settle(0.1)
        if when == "closed":
            env.s.clock_offset = step
        if end == "late":
            env.settle(0.3)
        if when == "ending":
            env.s.clock_offset = step
        if end in ("exit", "late"):
            c.exit(3)
        elif end == "channel":
            sv.close_channel(3)
        env.settle(4)
        env.check(not threads(env), "the service runs on")
        env.check(not p.proc.alive, "the command runs on")
        if end in ("exit", "late"):
            if not (end == "late" and step > 0):
                c.verify()
        elif end == "never":
            env.check(sv.data(3) == b"output" and len(sv.closes(3)) == 1, "sent %r, closed %d times", sv.data(3), len(sv.closes(3)))
        ex.note(step, when, end)

    env.run(main)


def repeats(ex):
    """One command after another, on the same channel or on new ones, in every way of ending."""
    env = agent.Env(ex, preempt=False, time_horizon=1e6)
    depth = ex.params

    def main():
        cmds = start(env)
        sv = env.server
        for step in range(ex.cycled(depth)):
            env.fresh()
            how = ex.pick(["exit", "die", "quiet", "errors", "close", "drop", "fails", "never ends"], label="how")
            ch = 3 if ex.choose(2, label="channel") == 0 else 10 + step
            ex.note(how, ch)
            if how == "fails":
                env.w.popen = None
            first = len(sv.sent)
            n = len(cmds.started)
            c = Cmd(env, cmds, ch, b"cmd %d" % step)
            env.settle()
            env.w.popen = cmds.popen
            if how == "fails":
                P = agent.P
                env.check([s.type for s in sv.sent[first:]] == [P["request_send_control"], P["request_close"]], "%r", sv.sent[first:])
                sv.close_channel(ch)
                env.settle()
                continue
            env.check(len(cmds.started) == n + 1 and env.w.popen_log[-1]["args"] == "cmd %d" % step, "ran %r", env.w.popen_log[n:])
            if how == "errors":
                c.err(b"error")
            elif how != "quiet":
                c.feed(b"output %d" % step)
                env.settle()
                c.feed(b"more")
            if how in ("exit", "quiet", "errors"):
                c.exit(step % 256)
            elif how == "die":
                c.exit(0, signal.SIGKILL)
            elif how == "close":
                sv.close_channel(ch)
            elif how == "drop":
                sv.disconnect(agent.ENDS[step % 3])
            elif how == "never ends":
                c.p.stdout.hangup()
            env.settle(4)
            if how in ("exit", "quiet", "errors", "die"):
                c.verify()
            else:
                env.check(not c.p.proc.alive, "the command runs on")
            env.check(not threads(env), "the service runs on")
            if how == "drop":
                env.settle(40)
                env.up()
            elif how != "close":
                sv.close_channel(ch)
                env.settle()
        env.ping()

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    out = [
        Family("histories", histories, 0, 5 if deep else 4, about="every order of events"),
        Family("sizes", sizes, 0, about="amounts of output"),
        Family("filling", filling, 0, 4 if deep else 3, about="amounts of output larger than a pipe"),
        Family("clocks", clocks, 0, about="the clock is set meanwhile"),
        Family("chatty", chatty, 0, about="never ending output"),
        Family("background", background, 0, 6 if deep else 4, about="output that outlives the command"),
        Family("codes", codes, 0, about="return codes, signals, command lines"),
        Family("repeats", repeats, 0, core.Cycled(2, 20), about="one command after another"),
        Family("failures", failures, 0, about="commands that can not be started"),
        Family("several", several, 0, 6 if deep else 4, about="two commands"),
    ]
    for h in ("fast", "close-start", "close", "exit", "hup-exit", "exit-close", "drop"):
        out.append(Family("race-" + h, races, b, h, about=h))
    return out
