"""C05: closed channels stay closed; reused numbers and reconnects start fresh."""
import signal

from .. import agent, core, kit
from ..main import Family

M = "dataplicity."
SHARED = (M + "m2m.wsclient", M + "portforward", M + "m2m.remoteprocess", M + "m2m.proxy")


class Listener(object):
    """A service of the harness on a channel of the agent's own channel interface."""

    def __init__(self, env, number, bad=False):
        self.env = env
        self.number = number
        self.bad = bad
        self.got = []
        self.closes = 0
        self.channel = env.client.m2m.m2m_client.get_channel(number)
        self.channel.set_callbacks(self.data, self.close, self.control)
        self.want = []
        self.closed = False

    def data(self, d):
        self.got.append(("data", d))

    def control(self, d):
        self.got.append(("control", d))

    def close(self):
        self.closes += 1
        if self.bad:
            raise ValueError("close callback failed")


NUMBERS = [5, 6, 1000]


def raw(ex):
    """Listeners on channels: every sequence of opens, traffic, closes, drops; all old ones kept and checked."""
    depth, numbers, prefix = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        cur = {}
        old = []
        conn = 1
        sent = []
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = [("drop", None)]
            for n in numbers:
                if n in cur:
                    menu += [("data", n), ("control", n), ("close", n), ("write", n), ("request", n)]
                else:
                    menu += [("open", n), ("open-bad", n), ("stray-data", n), ("stray-close", n), ("notify-open", n)]
                if any(o.number == n for o in old):
                    menu.append(("old-write", n))
            ev, n = prefix[step] if step < len(prefix) else ex.pick(menu, label="event")
            ex.note(ev, n)
            msg = b"s%d" % step
            if ev == "drop":
                sv.disconnect(agent.ENDS[step % 3])
                sv.connect()
                sv.packet("welcome")
                conn += 1
                for o in cur.values():
                    o.closed = True
                    old.append(o)
                cur.clear()
                env.settle(40)
            elif ev in ("open", "open-bad"):
                cur[n] = Listener(env, n, ev == "open-bad")
                env.check(not cur[n].channel.is_closed, "a new channel %d is already closed", n)
            elif ev == "data":
                sv.route(n, msg)
                cur[n].want.append(("data", msg))
            elif ev == "stray-data":
                sv.route(n, msg)
                sv.control(n, {"type": "x"})
            elif ev == "stray-close":
                sv.close_channel(n)
            elif ev == "notify-open":
                sv.packet("notify_open", n)
            elif ev == "control":
                sv.control(n, b"ctl" + msg)
                cur[n].want.append(("control", b"ctl" + msg))
            elif ev == "close":
                sv.close_channel(n)
                cur[n].closed = True
                old.append(cur.pop(n))
            elif ev == "write":
                cur[n].channel.write(msg)
                sent.append((conn, n, msg))
            elif ev == "request":
                # the service asks for a close: the server is asked, nothing else changes
                k = len(sv.closes(n))
                cur[n].channel.close()
                env.settle()
                env.check(len(sv.closes(n)) == k + 1, "a requested close was sent %d times", len(sv.closes(n)) - k)
            elif ev == "old-write":
                before = len(sv.sent)
                for o in old:
                    if o.number == n:
                        o.channel.write(b"ghost")
                        o.channel.send_control({"type": "ghost"})
                        o.channel.close()
                env.settle()
                env.check(len(sv.sent) == before, "a closed channel still sends: %r", sv.sent[before:])
            env.settle()
            for o in old + list(cur.values()):
                env.check(o.got == o.want, "channel %d: got %r, not %r", o.number, o.got, o.want)
                env.check(o.closes == int(o.closed), "channel %d: told of its close %d times (closed: %s)",
                          o.number, o.closes, o.closed)
                env.check(o.channel.is_closed == o.closed, "channel %d: closed is %r, not %r",
                          o.number, o.channel.is_closed, o.closed)
        got = [(s.conn, s.fields[0], s.fields[1]) for s in sv.of("request_send")]
        env.check(got == sent, "sent %r, not %r", got, sent)
        env.ping()

    env.run(main)


def services(ex):
    """The same with the agent's own services, whose far ends keep talking after the close."""
    depth, kinds, numbers = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        shells = kit.Shells(env, ignores=(signal.SIGHUP,))
        local = kit.Local(env)
        cmds = kit.Commands(env)
        cur = {}
        old = []
        conn = 1
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = [("drop", None)]
            for n in numbers:
                if n in cur:
                    menu += [("data", n), ("out", n), ("close", n)]
                else:
                    menu += [(k, n) for k in kinds]
                if any(o["n"] == n and o["kind"] != "echo" for o in old):
                    menu.append(("late", n))
            ev, n = ex.pick(menu, label="event")
            ex.note(ev, n)
            msg = b"<%d.%d>" % (n or 0, step)
            if ev == "drop":
                sv.disconnect(agent.ENDS[step % 3])
                sv.connect()
                conn += 1
                old += list(cur.values())
                for c in cur.values():
                    c["open"] = False
                cur.clear()
                env.settle(40)
            elif ev in ("echo", "term", "fwd", "cmd"):
                {"echo": kit.open_echo, "term": kit.open_term, "fwd": kit.open_forward, "cmd": kit.open_command}[ev](sv, n)
                env.settle()
                end = {"echo": lambda: None, "term": lambda: shells.ptys[-1], "fwd": lambda: local.conns[-1],
                       "cmd": lambda: cmds.started[-1]}[ev]()
                cur[n] = {"kind": ev, "n": n, "end": end, "in": b"", "out": b"", "open": True, "conn": conn,
                          "base": len(sv.data(n))}
            elif ev == "data":
                sv.route(n, msg)
                cur[n]["in"] += msg
                if cur[n]["kind"] == "echo":
                    cur[n]["out"] += msg
            elif ev == "out":
                c = cur[n]
                if c["kind"] == "term":
                    c["end"].out += msg
                    c["out"] += msg
                elif c["kind"] == "fwd":
                    c["end"].server_send(msg)
                    c["out"] += msg
                elif c["kind"] == "cmd":
                    c["end"].stdout.feed(msg)
                    c["out"] += msg
            elif ev == "close":
                sv.close_channel(n)
                cur[n]["open"] = False
                old.append(cur.pop(n))
            elif ev == "late":
                # the far ends of closed channels go on, and the server routes to a closed number
                for o in old:
                    if o["n"] == n and o["kind"] == "term" and not o["end"].closed:
                        o["end"].out += b"late"
                    elif o["n"] == n and o["kind"] == "fwd" and not o["end"].server_fin:
                        o["end"].server_send(b"late")
                    elif o["n"] == n and o["kind"] == "cmd":
                        o["end"].stdout.feed(b"late")
                if n not in cur:
                    sv.route(n, b"stray")
            env.settle(2 if "cmd" in kinds else None)
            if "cmd" in kinds:
                for name in ("request_close", "request_send_control"):
                    env.check(not sv.of(name), "no service has ended, but %r was sent", sv.of(name))
            want = {}
            for c in old + list(cur.values()):
                want.setdefault(c["n"], []).append(c)
                if c["kind"] == "term":
                    env.check(bytes(c["end"].inp) == c["in"], "terminal on %d got %r, not %r", c["n"],
                              bytes(c["end"].inp), c["in"])
                elif c["kind"] == "fwd":
                    env.check(bytes(c["end"].to_server) == c["in"], "connection on %d got %r, not %r", c["n"],
                              bytes(c["end"].to_server), c["in"])
                    env.check(c["end"].server_sees_eof == (not c["open"]), "connection on %d: end of stream %r, open %r",
                              c["n"], c["end"].server_sees_eof, c["open"])
            for k in numbers:
                out = b"".join(c["out"] for c in want.get(k, ()))
                env.check(sv.data(k) == out, "channel %d sent %r, not %r", k, sv.data(k), out)
            for p in shells.procs:
                c = [c for c in old + list(cur.values()) if c["end"] is p.pty][0]
                hups = [s for _, s in p.signals if s == signal.SIGHUP]
                env.check(len(hups) == int(not c["open"]), "terminal on %d (open: %r) got %d hang-ups",
                          c["n"], c["open"], len(hups))
        env.ping()

    env.run(main)


def race(ex):
    """A close (or a drop) races with traffic both ways; afterwards the number is used again."""
    kind, how = ex.params
    env = agent.Env(ex, points=SHARED, time_horizon=1e6)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        sv = env.server
        shells = kit.Shells(env, ignores=(signal.SIGHUP,))
        local = kit.Local(env)
        opener = kit.open_term if kind == "term" else kit.open_forward
        opener(sv, 3)
        kit.open_forward(sv, 4, b"alt")
        env.settle()
        end = shells.ptys[0] if kind == "term" else local.on(80)[0]
        other = local.on(8080)[0]
        env.s.preempt = True
        sv.route(3, b"one;")
        if kind == "term":
            end.out += b"OUT1"
        else:
            end.server_send(b"OUT1")
        if how == "close":
            sv.close_channel(3)
        else:
            sv.disconnect()
        sv.route(3, b"two;") if how == "close" else None
        other.server_send(b"other")
        env.settle(0 if how == "close" else 40)
        env.s.preempt = False
        if how == "drop":
            sv.connect()
        env.settle()
        base = sv.data(3)
        env.check(base in (b"", b"OUT1"), "sent %r", base)
        opener(sv, 3)
        env.settle()
        new = shells.ptys[-1] if kind == "term" else local.on(80)[-1]
        env.check(new is not end, "the service was not started afresh")
        sv.route(3, b"three;")
        if kind == "term":
            end.out += b"GHOST"
            new.out += b"NEW"
        else:
            end.server_send(b"GHOST")
            new.server_send(b"NEW")
        env.settle()
        got = bytes(end.inp if kind == "term" else end.to_server)
        env.check(got == b"one;", "the closed service got %r", got)
        got = bytes(new.inp if kind == "term" else new.to_server)
        # what came for the number before the service was opened was for no service
        env.check(got == b"three;", "the new service got %r", got)
        env.check(sv.data(3) == base + b"NEW", "the channel sent %r then %r", base, sv.data(3))
        if kind == "term":
            env.check([s for _, s in shells.procs[0].signals if s != signal.SIGKILL] == [signal.SIGHUP] and not shells.procs[1].signals,
                      "signals %r", [p.signals for p in shells.procs])
        else:
            env.check(end.server_sees_eof and not new.server_sees_eof, "wrong connection ended")
        if how == "close":
            env.check(sv.data(4) == b"other" and not other.server_sees_eof, "the other channel was disturbed")
        env.ping()
        ex.note(kind, how)

    env.run(main)


def stale(ex):
    """A service thread is about to write while its channel is closed and the number used again."""
    how = ex.params
    env = agent.Env(ex, points=(M + "m2m.wsclient",), time_horizon=1e6)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        sv = env.server
        ch = env.client.m2m.m2m_client.get_channel(3)
        ch.set_callbacks(lambda d: None, lambda: None, lambda d: None)

        def service():
            ch.write(b"old 1")
            ch.send_control({"type": "old"})
            ch.write(b"old 2")
            ch.close()
        env.s.preempt = True
        env.s.spawn(service, "service", kind="agent")
        if how == "reuse":
            sv.close_channel(3)
            conn = 1
        else:
            sv.disconnect()
            sv.connect()
            conn = 2
        kit.open_echo(sv, 3)
        sv.route(3, b"new 1")
        env.settle(40)
        env.s.preempt = False
        sv.route(3, b"new 2")
        env.settle()
        env.check(not env.s.thread_errors, "a write failed: %r", env.s.thread_errors)
        mine = [s for s in sv.sent if s.type in (agent.P["request_send"], agent.P["request_send_control"],
                                                 agent.P["request_close"])]
        new = [i for i, s in enumerate(mine) if s.fields == [3, b"new 1"]]
        env.check(len(new) == 1, "the echo answered %d times", len(new))
        after = [s.fields for s in mine[new[0] + 1:]]
        env.check(after == [[3, b"new 2"]], "after the number was used again, also sent: %r", after)
        env.check(conn == 1 or not [s for s in mine[:new[0]] if s.conn == conn], "the old channel writes to the new connection")
        olds = [s.fields[1] for s in mine[:new[0]] if len(s.fields) > 1]
        env.check(olds == [b"old 1", b'{"type": "old"}', b"old 2"][:len(olds)], "the old channel sent %r", olds)
        ex.note(len(mine))

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    out = [
        Family("raw", raw, 0, (5 if deep else 4, NUMBERS[:2], ()), about="all histories over 2 numbers"),
        Family("raw-cycles", raw, 0, (core.Cycled(3, 30) if deep else core.Cycled(2, 30), NUMBERS[:2], ()), about="the same few events, over and over"),
        Family("raw-open", raw, 0, (6 if deep else 5, NUMBERS[:2], (("open", 5), ("open", 6))),
               about="all continuations of two open channels"),
        Family("raw-one", raw, 0, (7 if deep else 6, NUMBERS[2:], (("open", 1000),)), about="long histories of one number"),
        Family("services", services, 0, (6 if deep else 5, ("echo", "term", "fwd"), (3, 4)),
               about="terminals, forwards and echoes over 2 numbers"),
        Family("cycles", services, 0, (core.Cycled(3, 30) if deep else core.Cycled(2, 30), ("echo", "term", "fwd", "cmd"), (3, 4)), about="the same few events, over and over"),
        Family("jobs", services, 0, (8 if deep else 6, ("echo", "cmd"), (3,)), about="commands and echoes on a number"),
    ]
    for k in ("term", "fwd"):
        for h in ("close", "drop"):
            out.append(Family("race-%s-%s" % (k, h), race, 2 if deep else 1, (k, h), about="%s races with traffic" % h))
    for h in ("reuse", "reconnect"):
        out.append(Family("stale-" + h, stale, 3 if deep else 2, h, about="a late write against a %s" % h))
    return out
