"""C08: pings and echoes are answered exactly, whatever else is going on."""
from .. import agent, core, kit, vthread
from ..main import Family

M = "dataplicity."
SHARED = (M + "m2m.wsclient", M + "m2m.dispatcher", M + "m2m.echoservice", M + "m2mmanager", M + "portforward",
          M + "m2m.commandservice", M + "limiter")


def blob(n, k=1):
    one = bytes(bytearray((j * 5 + j // 253 + k) & 255 for j in range(min(n, 9001))))
    return (one * (n // max(1, len(one)) + 1))[:n]


class Oracle(object):
    def __init__(self, env):
        self.env = env
        self.sv = env.server
        self.pongs = []
        self.echoes = []

    def ping(self, data):
        self.sv.packet("ping", data)
        self.pongs.append(data[:1024])

    def echo(self, ch, data):
        self.sv.route(ch, data)
        self.echoes.append((ch, data))

    def verify(self):
        env, sv = self.env, self.sv
        env.check(sv.drained(), "messages are still unhandled")
        got = [p.fields for p in sv.of("pong")]
        env.check(got == [[p] for p in self.pongs], "pongs %r, not %r",
                  [f[0][:40] for f in got], [p[:40] for p in self.pongs])
        chans = set(c for c, _ in self.echoes)
        out = [(s.fields[0], s.fields[1]) for s in sv.of("request_send") if s.fields[0] in chans]
        env.check(out == self.echoes, "echoes %r, not %r", [(c, len(d), d[:30]) for c, d in out],
                  [(c, len(d), d[:30]) for c, d in self.echoes])


SIZES = [0, 1, 2, 1022, 1023, 1024, 1025, 1026, 2048, 65535, 65536, 1 << 20]


def sizes(ex):
    n = ex.pick(SIZES, label="size")
    m = ex.pick([0, 1, 1023, 1024, 1025, 100000], label="then")
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        env.up()
        o = Oracle(env)
        kit.open_echo(env.server, 1)
        kit.open_echo(env.server, 2)
        for rep in range(2):
            o.ping(blob(n, rep))
            o.echo(1, blob(n, rep))
            o.ping(blob(m, rep))
            o.echo(2, blob(m, rep))
            env.settle()
            o.verify()
        ex.note(n, m)

    env.run(main)


def contents(ex):
    """Bytes that mean something elsewhere: wire syntax, zero bytes, invalid text."""
    pieces = [b"", b"\x00", b"\xff\xfe", b"i1e", b"2:ab", b"le", b"%s%d", b"\r\n", b"{}", u"\u20ac".encode("utf-8")]
    d = ex.pick(pieces, label="a") + ex.pick(pieces, label="b") + ex.pick(pieces, label="c")
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        env.up()
        o = Oracle(env)
        kit.open_echo(env.server, 7)
        o.ping(d)
        o.echo(7, d)
        o.echo(7, d)
        o.ping(d[::-1])
        env.settle()
        o.verify()
        ex.note(d)

    env.run(main)


def histories(ex):
    """All sequences of pings, echoes and services that start, stall, fail or end."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        shells = kit.Shells(env)
        cmds = kit.Commands(env)
        local = kit.Local(env)
        env.w.listeners[("127.0.0.1", 81)] = "timeout"
        o = Oracle(env)
        echo = set()
        nxt = [100]

        def ch():
            nxt[0] += 1
            return nxt[0]
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = ["ping", "echo5", "echo6", "close5", "term", "term-bad", "fwd", "fwd-slow", "fwd-none", "stall",
                    "cmd", "cmd-dies", "file-missing", "nonsense", "scan", "api-down", "no-threads"]
            ev = ex.pick(menu, label="event")
            ex.note(ev)
            tag = b"%d" % step
            if ev == "ping":
                o.ping(b"p" + tag)
            elif ev in ("echo5", "echo6"):
                n = int(ev[4:])
                if n not in echo:
                    kit.open_echo(sv, n)
                    echo.add(n)
                o.echo(n, b"e" + tag)
            elif ev == "close5":
                sv.close_channel(5)
                echo.discard(5)
            elif ev == "term":
                kit.open_term(sv, ch())
                env.settle()
                if shells.ptys:
                    shells.ptys[-1].out += b"$ "
            elif ev == "term-bad":
                env.w.ptyfork = None
                kit.open_term(sv, ch())
                env.settle()
                env.w.ptyfork = shells.fork
            elif ev == "fwd":
                kit.open_forward(sv, ch())
            elif ev == "fwd-slow":
                kit.open_forward(sv, ch(), b"ext")
            elif ev == "fwd-none":
                kit.open_redirect(sv, ch(), 9999)
            elif ev == "stall":
                # a local server that takes nothing
                local.capacity = 0
                n = ch()
                kit.open_forward(sv, n)
                sv.route(n, b"x" * 100)
                sv.route(n, b"y" * 100)
                env.settle()
                local.capacity = None
            elif ev == "cmd":
                kit.open_command(sv, ch())
                env.settle()
                if cmds.started:
                    cmds.started[-1].stdout.feed(b"line\n")
            elif ev == "cmd-dies":
                env.w.popen = None
                kit.open_command(sv, ch())
                env.settle()
                env.w.popen = cmds.popen
            elif ev == "file-missing":
                kit.open_file(sv, ch(), b"/nonexistent/file")
            elif ev == "nonsense":
                sv.raw(b"li5e")
                sv.instruct(action=b"open-terminal", port=b"x")
                sv.packet("route", b"x", 5)
            elif ev == "scan":
                sv.packet("scan_remote_directory")
            elif ev == "api-down":
                env.api.behave = lambda n, calls: IOError("unreachable")
                sv.instruct(action=b"sync")
                env.settle()
                env.api.behave = None
            elif ev == "no-threads":
                vthread.HOOK.thread_start_fault = lambda: True
                kit.open_command(sv, ch())
                kit.open_forward(sv, ch())
                kit.open_term(sv, ch())
                env.settle()
                vthread.HOOK.thread_start_fault = None
            if ex.choose(2, label="pile") == 0:
                env.settle()
        o.ping(b"last")
        if 5 not in echo:
            kit.open_echo(sv, 5)
        o.echo(5, b"last")
        # a stalled connection may hold the session up for a few seconds
        env.settle(60)
        o.verify()

    env.run(main)


def stalled(ex):
    """A terminal whose process does not read, and a local server that does not."""
    where = ex.pick(["terminal", "forward"], label="where")
    room = ex.pick([0, 1, 3], label="room")
    amount = ex.pick([1, 3, 4, 50], label="amount")
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        o = Oracle(env)
        kit.open_echo(sv, 3)
        if where == "terminal":
            shells = kit.Shells(env)
            kit.open_term(sv, 7)
            env.settle()
            end = shells.ptys[0]
            end.capacity = room
        else:
            local = kit.Local(env, capacity=room)
            kit.open_forward(sv, 7)
            env.settle()
            end = local.conns[0]
        o.ping(b"before")
        sv.route(7, b"x" * amount)
        o.ping(b"after")
        o.echo(3, b"after")
        env.settle(10)
        late = not sv.drained()
        if where == "terminal":
            env.check(not late or amount > room, "%d bytes for a terminal with room for %d hold up the session", amount, room)
            # the process reads again
            end.capacity = None
            env.settle()
            env.check(bytes(end.inp) == b"x" * amount, "the terminal got %r", bytes(end.inp))
        else:
            env.check(not late, "a local server that does not read holds up the session for more than 10 seconds")
        o.ping(b"last")
        env.settle()
        o.verify()
        ex.note(where, room, amount)
        if late:
            raise core.Violation("pings are not answered while the process of a terminal does not read its input",
                                 sig="terminal-input-holds-up-session")

    env.run(main)


def many(ex):
    """A burst of many pings and echoes."""
    n = ex.pick([10, 100, 1000], label="count")
    k = ex.pick([1, 3, 50], label="channels")
    env = agent.Env(ex, preempt=False, horizon=2000000)

    def main():
        env.start_agent()
        env.up()
        o = Oracle(env)
        for c in range(k):
            kit.open_echo(env.server, 10 + c)
        for i in range(n):
            o.ping(b"%d" % i)
            o.echo(10 + i % k, b"%d" % i)
        env.settle()
        o.verify()
        ex.note(n, k)

    env.run(main)


def reconnects(ex):
    """Pings and echoes on connection after connection."""
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        o = Oracle(env)
        for step in range(3):
            for _ in range(2):
                ev = ex.pick(["none", "ping", "echo"], label="event")
                ex.note(ev)
                if ev == "ping":
                    o.ping(b"p%d" % step)
                elif ev == "echo":
                    kit.open_echo(env.server, 3)
                    o.echo(3, b"e%d" % step)
            env.settle()
            o.verify()
            env.server.disconnect()
            env.server.connect()
            env.settle(60)
        o.ping(b"end")
        env.settle()
        o.verify()

    env.run(main)


def schedules(ex):
    """Other services are busy in their own threads while pings and echoes come in."""
    env = agent.Env(ex, points=SHARED)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        cmds = kit.Commands(env)
        o = Oracle(env)
        kit.open_forward(sv, 1)
        kit.open_command(sv, 2)
        kit.open_echo(sv, 3)
        env.settle()
        env.s.preempt = True
        local.conns[0].server_send(b"page")
        cmds.started[0].stdout.feed(b"output")
        o.ping(b"one")
        o.echo(3, b"two")
        kit.open_redirect(sv, 4, 9999)
        o.ping(b"three")
        o.echo(3, b"four")
        env.settle(1)
        local.conns[0].server_close()
        cmds.started[0].proc.exit(0)
        o.ping(b"five")
        env.settle(10)
        o.verify()

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("sizes", sizes, 0, about="payload sizes around boundaries"),
        Family("contents", contents, 0, about="payload contents"),
        Family("histories", histories, 0, 4 if deep else 3, about="among other services"),
        Family("cycles", histories, 0, core.Cycled(3, 30) if deep else core.Cycled(2, 30), about="the same few events, over and over"),
        Family("stalled", stalled, 0, about="input that nobody reads"),
        Family("many", many, 0, about="bursts"),
        Family("reconnects", reconnects, 0, about="on several connections"),
        Family("schedules", schedules, 2 if deep else 1, about="busy threads"),
    ]
