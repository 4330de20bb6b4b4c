"""C11: a forwarded connection ends when either side ends, alone."""
from .. import agent, core, kit
from ..main import Family

M = "dataplicity."
POINTS = (M + "portforward", M + "m2m.wsclient")
SLACK = 6.0  # the poll interval, and a little


def alive(env):
    """Connection threads that still run."""
    return [t for t in env.s.tasks if not t.done and t.kind == "agent" and t.name in ("Connection",)]


class Rig(object):
    def __init__(self, env):
        self.env = env
        self.sv = env.server
        self.local = kit.Local(env)
        env.w.listeners[("127.0.0.1", 81)] = "timeout"
        self.cons = {}  # ch -> dict

    def verify(self):
        """After things settled: everyone knows of the ends, and of nothing else."""
        env, sv = self.env, self.sv
        n = 0
        for ch, c in self.cons.items():
            conn = c["conn"]
            if conn is None:
                continue
            got, out = bytes(conn.to_server), sv.data(ch)[c["skip"]:]
            if c["end"] is None:
                n += 1
                env.check(not conn.server_sees_eof and not conn.shut_rd, "connection of %d ended by itself", ch)
                env.check(len(sv.closes(ch)) == c["closes"], "channel %d closed by itself", ch)
                env.check(got == c["in"], "connection of %d got %r, not %r", ch, got, c["in"])
                env.check(out == c["out"], "channel %d carried %r, not %r", ch, out, c["out"])
            elif c["end"] == "local":
                env.check(len(sv.closes(ch)) > c["closes"], "the local server ended, but channel %d was not closed", ch)
                env.check(out == c["out"], "channel %d carried %r, not %r, before its close", ch, out, c["out"])
                last = sv.closes(ch)[c["closes"]]
                env.check(not [s for s in sv.sent[sv.sent.index(last):] if s.type == agent.P["request_send"] and
                               s.fields[0] == ch], "channel %d: data after the close", ch)
            elif c["end"] == "reset":
                env.check(len(sv.closes(ch)) > c["closes"], "a reset, but channel %d was not closed", ch)
            else:
                env.check(conn.server_sees_eof, "channel %d closed, but the local server sees no end", ch)
                env.check(got == c["in"], "connection of %d got %r, not %r", ch, got, c["in"])
        run = alive(env)
        env.check(len(run) == n, "%d connection threads for %d connections", len(run), n)


def histories(ex):
    """Two connections: opens, traffic and every way to end, in every order."""
    depth, prefix = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        r = Rig(env)
        gone = []
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = ["drop"]
            for ch in (5, 6):
                c = r.cons.get(ch)
                if c is None:
                    menu += ["web%d" % ch, "redirect%d" % ch, "none%d" % ch, "slow%d" % ch, "instant%d" % ch]
                elif c["end"] is None:
                    menu += ["in%d" % ch, "out%d" % ch, "close%d" % ch, "fin%d" % ch, "reset%d" % ch, "last%d" % ch]
            if all(c["end"] is None for c in r.cons.values()):
                menu += ["idle"]
            ev = prefix[step] if step < len(prefix) else ex.pick(menu, label="event")
            ex.note(ev)
            what, ch = ev[:-1], ev[-1:]
            ch = int(ch) if ch.isdigit() else None
            c = r.cons.get(ch)
            msg = b"%d:%s;" % (step, what.encode())
            if ev == "drop":
                sv.disconnect(agent.ENDS[step % 3])
                sv.connect()
                for c in r.cons.values():
                    if c["end"] is None:
                        c["end"] = "channel"
            elif ev == "idle":
                env.settle(100)
            elif what in ("web", "redirect", "none", "slow", "instant"):
                n = len(r.local.conns)
                closes = len(sv.closes(ch))
                skip = len(sv.data(ch))
                if what == "web":
                    kit.open_forward(sv, ch)
                elif what == "redirect":
                    kit.open_redirect(sv, ch, 8000)
                elif what == "none":
                    kit.open_redirect(sv, ch, 9999)
                elif what == "slow":
                    kit.open_forward(sv, ch, b"ext")
                else:
                    # the channel closes before the connection is even tried
                    kit.open_forward(sv, ch)
                    sv.route(ch, b"parting")
                    sv.close_channel(ch)
                env.settle()
                r.cons[ch] = dict(conn=None, end=None, closes=closes, skip=skip)
                r.cons[ch].update({"in": b"", "out": b""})
                if what in ("web", "redirect"):
                    r.cons[ch]["conn"] = r.local.conns[n]
                elif what == "none":
                    env.settle(SLACK)
                    env.check(len(sv.closes(ch)) > closes, "refused, but channel %d is not closed", ch)
                    r.cons[ch]["end"] = "local"
                elif what == "slow":
                    env.settle(SLACK)
                    env.check(len(sv.closes(ch)) > closes, "no connection, but channel %d is not closed", ch)
                    r.cons[ch]["end"] = "local"
                else:
                    env.check(len(r.local.conns) == n + 1, "no connection for channel %d", ch)
                    r.cons[ch]["conn"] = r.local.conns[n]
                    r.cons[ch]["in"] = b"parting"
                    r.cons[ch]["end"] = "channel"
            elif what == "in":
                sv.route(ch, msg)
                c["in"] += msg
            elif what == "out":
                c["conn"].server_send(msg)
                c["out"] += msg
            elif what == "close":
                sv.close_channel(ch)
                c["end"] = "channel"
            elif what == "fin":
                c["conn"].server_close()
                c["end"] = "local"
            elif what == "last":
                c["conn"].server_send(msg)
                c["out"] += msg
                c["conn"].server_close()
                c["end"] = "local"
            elif what == "reset":
                c["conn"].server_reset()
                c["end"] = "reset"
            env.settle(40 if ev == "drop" else None)
            ended = [k for k, c in r.cons.items() if c["end"]]
            if ended:
                env.settle(SLACK)
            r.verify()
            for k in ended:
                # the server acknowledges, the number can be used again
                if r.cons[k]["end"] in ("local", "reset"):
                    sv.close_channel(k)
                r.cons.pop(k)
            env.settle()

    env.run(main)


def races(ex):
    """An end meets the connect, traffic or the other end, statement by statement; a second connection looks on."""
    what = ex.params
    env = agent.Env(ex, points=POINTS, time_horizon=1e5)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        kit.open_redirect(sv, 7, 8000)
        env.settle()
        other = local.conns[0]
        n = 1
        if what in ("close-connect", "drop-connect", "fin-connect", "reopen"):
            env.s.preempt = True
            kit.open_forward(sv, 5)
            if what == "close-connect":
                sv.close_channel(5)
            elif what == "drop-connect":
                sv.disconnect()
                n = 0
            elif what == "reopen":
                # closed and used again at once, for another connection
                sv.close_channel(5)
                kit.open_forward(sv, 5, b"alt")
                sv.route(5, b"for alt")
                n = 2
            else:
                env.s.block(lambda: len(local.conns) > 1, 30, "connected")
                local.conns[1].server_send(b"bye")
                local.conns[1].server_close()
        else:
            kit.open_forward(sv, 5)
            env.settle()
            env.s.preempt = True
            c = local.conns[1]
            if what == "close-fin":
                c.server_send(b"bye")
                c.server_close()
                sv.close_channel(5)
            elif what == "data-fin":
                sv.route(5, b"request")
                c.server_send(b"bye")
                c.server_close()
                sv.route(5, b"more")
            elif what == "data-reset":
                sv.route(5, b"request")
                c.server_reset()
                sv.route(5, b"more")
            elif what == "data-close":
                c.server_send(b"answer")
                sv.route(5, b"request")
                sv.close_channel(5)
        env.settle(0.5)
        env.s.preempt = False
        env.settle(12)
        run = alive(env)
        env.check(len(run) == n, "%d connection threads, not %d", len(run), n)
        if what == "reopen":
            a, b = local.on(80)[0], local.on(8080)[0]
            env.check(a.server_sees_eof and bytes(a.to_server) == b"", "the closed connection: %r %r",
                      a.server_sees_eof, bytes(a.to_server))
            env.check(not b.server_sees_eof and bytes(b.to_server) == b"for alt", "the new connection: %r %r",
                      b.server_sees_eof, bytes(b.to_server))
        else:
            c = local.conns[1]
            if what in ("close-connect", "drop-connect", "close-fin", "data-close"):
                env.check(c.server_sees_eof, "the channel closed, but the local server sees no end")
            if what in ("fin-connect", "data-fin", "data-reset"):
                env.check(sv.closes(5), "the local server ended, but the channel is open")
            if what in ("fin-connect", "data-fin"):
                env.check(sv.data(5) == b"bye", "the channel carried %r", sv.data(5))
            if what == "data-close":
                env.check(bytes(c.to_server) == b"request", "the local server got %r", bytes(c.to_server))
        if what != "drop-connect":
            sv.route(7, b"still here")
            other.server_send(b"me too")
            env.settle()
            env.check(bytes(other.to_server) == b"still here" and sv.data(7) == b"me too" and not sv.closes(7) and
                      not other.server_sees_eof, "the other connection was disturbed: %r %r %r",
                      bytes(other.to_server), sv.data(7), sv.closes(7))
            env.ping()
        else:
            env.check(other.server_sees_eof, "the other connection outlives the lost session")

    env.run(main)


def chatty(ex):
    """A local server that never stops sending: the connection ends with its channel all the same."""
    every = ex.pick([0.1, 0.5, 4.0, 7.0], label="every")
    piece = ex.pick([b"tick ", b"tick " * 20000], label="piece")
    how = ex.pick(["close", "drop", "fin", "reset"], label="end")
    heeds = ex.pick([True, False], label="the server stops at the end of the stream")
    env = agent.Env(ex, preempt=False, horizon=300000, time_horizon=1e5)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        kit.open_forward(sv, 5)
        kit.open_redirect(sv, 6, 8000)
        env.settle()
        c, other = local.conns
        out = []
        over = []

        def feed():
            if len(c.from_server) < 1000000 and not c.rst:
                c.server_send(piece)
                out.append(piece)
        kit.chatter(env, feed, lambda: not over and not (heeds and c.server_sees_eof), every)
        env.settle(20)
        env.check(len(sv.data(5)) >= len(b"".join(out)) - len(piece) and out, "%d bytes of %d", len(sv.data(5)), len(b"".join(out)))
        sv.route(5, b"going")
        sv.route(6, b"staying")
        if how == "close":
            sv.close_channel(5)
        elif how == "drop":
            sv.disconnect()
        else:
            over.append(1)
            c.server_close() if how == "fin" else c.server_reset()
        env.settle(SLACK + 1)
        run = alive(env)
        env.check(len(run) == (0 if how == "drop" else 1), "%d connection threads", len(run))
        if how in ("close", "drop"):
            env.check(c.server_sees_eof and bytes(c.to_server) == b"going", "the local server: end %r, got %r",
                      c.server_sees_eof, bytes(c.to_server))
        else:
            env.check(sv.closes(5), "the channel is open")
        over.append(1)
        got, all_ = sv.data(5), b"".join(out)
        env.check(got == all_ if how == "fin" else all_.startswith(got), "the channel carried %d of %d bytes", len(got), len(all_))
        if how != "drop":
            other.server_send(b"me too")
            env.settle()
            env.check(bytes(other.to_server) == b"staying" and sv.data(6) == b"me too" and not sv.closes(6) and
                      not other.server_sees_eof, "the other connection was disturbed")
            env.ping()
        ex.note(every, len(piece), how, heeds)

    env.run(main)


def clocks(ex):
    """Connections that end at once, by clocks that tick slowly, or are set meanwhile."""
    how = ex.pick(["refused", "fin", "reset", "close", "drop", "close-late"], label="end")
    grain = ex.pick([None, 0.01, 10.0], label="grain")
    step = ex.pick([None, -3600.0, -1e9, 170.0], label="set")
    env = agent.Env(ex, preempt=False, time_horizon=1e5)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        env.s.grain = grain
        env.s.clock_offset = 0.0
        if how == "refused":
            env.w.listeners[("127.0.0.1", 80)] = "refuse"
        kit.open_forward(sv, 5)
        if how == "close":
            sv.close_channel(5)
        env.settle()
        if step:
            env.s.clock_offset = step
        c = local.conns[0] if local.conns else None
        if how == "fin":
            c.server_send(b"all")
            c.server_close()
        elif how == "reset":
            c.server_reset()
        elif how == "drop":
            sv.disconnect()
        elif how == "close-late":
            sv.route(5, b"all")
            sv.close_channel(5)
        env.settle(SLACK)
        env.check(not alive(env), "the connection goes on")
        env.check(not env.s.thread_errors, "failed: %r", env.s.thread_errors[:1])
        if how in ("refused", "fin", "reset"):
            env.check(sv.closes(5), "the channel was not closed")
        elif c is not None:
            env.check(c.server_sees_eof, "the local server sees no end")
        ex.note(how, grain, step)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    out = [
        Family("histories", histories, 0, (5 if deep else 4, ()), about="two connections, all ends"),
        Family("cycles", histories, 0, (core.Cycled(3, 30) if deep else core.Cycled(2, 30), ()), about="the same few events, over and over"),
        Family("histories-two", histories, 0, (6 if deep else 5, ("web5", "web6")), about="two open to the same service"),
        Family("histories-used", histories, 0, (8 if deep else 7, ("web5", "redirect6", "last5", "in6")),
               about="after one has ended"),
    ]
    out.append(Family("clocks", clocks, 0, about="clocks that tick slowly or are set"))
    out.append(Family("chatty", chatty, 0, about="a server that never stops sending"))
    for w in ("close-connect", "drop-connect", "fin-connect", "reopen", "close-fin", "data-fin", "data-reset", "data-close"):
        out.append(Family("race-" + w, races, b - (w == "reopen"), w, about=w))
    return out
