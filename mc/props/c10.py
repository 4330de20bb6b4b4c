"""C10: port forwarding carries both byte streams faithfully."""
from .. import agent, boot, core, kit
from ..main import Family

M = "dataplicity."
POINTS = (M + "portforward", M + "m2m.wsclient")
CHUNK = 1 << 20
BLANKS = (b"\r\n", b"\0\0", b" ", b"\xff\xfe")


def blob(k, n):
    one = bytes(bytearray((k * 31 + j * 7 + j // 251) & 255 for j in range(min(n, 4099))))
    return (one * (n // max(1, len(one)) + 1))[:n]


def opener(ex):
    return ex.pick(["forward", "redirect"], label="via")


def open_via(sv, via, ch):
    if via == "forward":
        kit.open_forward(sv, ch)
        return 80
    kit.open_redirect(sv, ch, 8000)
    return 8000


def schedules(ex):
    """Data in both directions races the connect, statement by statement."""
    what = ex.params
    env = agent.Env(ex, points=POINTS)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        env.s.preempt = True
        kit.open_forward(sv, 5)
        if what == "in":
            for i in range(3):
                sv.route(5, b"in%d." % i)
            env.settle(2)
            env.s.preempt = False
            c, = local.conns
            env.check(bytes(c.to_server) == b"in0.in1.in2.", "the local server got %r", bytes(c.to_server))
            ex.note(len(c.sends))
        elif what == "both":
            sv.route(5, b"in0.")
            env.s.block(lambda: bool(local.conns), 30, "connected")
            c = local.conns[0]
            c.server_send(b"out0.")
            sv.route(5, b"in1.")
            env.s.point()
            c.server_send(b"out1.")
            sv.route(5, b"in2.")
            env.settle(2)
            env.s.preempt = False
            env.check(bytes(c.to_server) == b"in0.in1.in2.", "the local server got %r", bytes(c.to_server))
            env.check(sv.data(5) == b"out0.out1.", "the channel carried %r", sv.data(5))
        elif what == "reply-close":
            # the server answers and closes at once: the whole answer arrives
            sv.route(5, b"GET /")
            env.s.block(lambda: bool(local.conns), 30, "connected")
            c = local.conns[0]
            env.s.block(lambda: bytes(c.to_server) == b"GET /", 30, "request received")
            c.server_send(b"answer")
            c.server_close()
            env.settle(20)
            env.s.preempt = False
            env.check(sv.data(5) == b"answer", "the channel carried %r", sv.data(5))
            env.check(len(sv.closes(5)) >= 1, "the channel was not closed")
        elif what == "in-close":
            # the channel closes right after the data: the data arrives all the same
            sv.route(5, b"in0.")
            sv.route(5, b"in1.")
            sv.close_channel(5)
            env.settle(20)
            env.s.preempt = False
            c, = local.conns
            env.check(bytes(c.to_server) == b"in0.in1.", "the local server got %r", bytes(c.to_server))
            env.check(c.server_sees_eof, "the local server sees no end of the stream")
        elif what == "two":
            kit.open_redirect(sv, 6, 8000)
            sv.route(5, b"five.")
            sv.route(6, b"six.")
            sv.route(5, b"5.")
            env.settle(2)
            env.s.preempt = False
            a, b = local.on(80)[0], local.on(8000)[0]
            env.check((bytes(a.to_server), bytes(b.to_server)) == (b"five.5.", b"six."), "the local servers got %r",
                      (bytes(a.to_server), bytes(b.to_server)))

    env.run(main)


def histories(ex):
    """Data each way in any order and pace, with stalls, then an end of either kind."""
    depth = ex.params
    via = opener(ex)
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        slow = ex.choose(2, label="slow connect")
        gate = []
        if slow:
            def accept(c):
                core.S.block(lambda: bool(gate), 4.0, "accepting")
                local.accept(c)
            env.w.listeners[("127.0.0.1", 80)] = env.w.listeners[("127.0.0.1", 8000)] = accept
        open_via(sv, via, 9)
        env.settle()
        win = b""
        wout = b""
        stalled = False
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = ["in", "in-empty", "in2"]
            if local.conns:
                menu += ["out", "out2", "wait"]
                menu += ["stall"] if not stalled else ["drain"]
            else:
                menu += ["connect"]
            ev = ex.pick(menu, label="event")
            ex.note(ev)
            if ev in ("in", "in2", "in-empty"):
                for i in range({"in": 1, "in2": 2, "in-empty": 1}[ev]):
                    d = b"" if ev == "in-empty" else BLANKS[step % 4] if i else b"i%d.%d;" % (step, i)
                    sv.route(9, d)
                    win += d
            elif ev in ("out", "out2"):
                for i in range(1 + (ev == "out2")):
                    d = BLANKS[step % 4] if i else b"o%d.%d;" % (step, i)
                    local.conns[0].server_send(d)
                    wout += d
                    if i == 0 and ev == "out2":
                        env.settle()
            elif ev == "connect":
                gate.append(1)
            elif ev == "stall":
                local.conns[0].send_capacity = ex.pick([0, 1, 3], label="capacity")
                stalled = True
            elif ev == "drain":
                local.conns[0].send_capacity = None
                stalled = False
            elif ev == "wait":
                if stalled:
                    # long enough, and data may be lost, which must end the connection
                    env.settle(1)
                else:
                    env.settle(60)
            env.settle()
        gate.append(1)
        env.settle(5 if not stalled else 1)
        c, = local.conns
        if stalled:
            c.send_capacity = None
            env.settle()
        end = ex.pick(["server-close", "channel-close", "server-last", "channel-last", "server-abort"], label="end")
        ex.note(end)
        if end in ("server-last", "server-abort"):
            c.server_send(b"last words")
            wout += b"last words"
        if end == "channel-last":
            sv.route(9, b"final request")
            win += b"final request"
        if end == "server-abort":
            # closed without having read everything: the answer can still be read
            c.server_reset()
        elif end.startswith("server"):
            c.server_close()
        else:
            sv.close_channel(9)
        env.settle(20)
        got = bytes(c.to_server)
        env.check(got == win, "the local server got %r, not %r", got, win)
        got = sv.data(9)
        env.check(got == wout, "the channel carried %r, not %r", got, wout)

    env.run(main)


def losses(ex):
    """A reset, a refusal to take data or a dead connection at any moment: what follows a loss is never sent."""
    n = 4
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        kit.open_forward(sv, 2)
        env.settle()
        c, = local.conns
        at = ex.pick(range(n), label="when")
        kind = ex.pick(["reset", "exit", "no-capacity", "partial", "shutdown"], label="loss")
        ex.note(at, kind)
        sent = []
        safe = None  # what had been delivered when the loss happened
        for i in range(n):
            if i == at:
                safe = len(c.to_server)
                if kind == "reset":
                    c.server_reset()
                elif kind == "exit":
                    c.server_exit()
                elif kind == "no-capacity":
                    c.send_capacity = 0
                elif kind == "partial":
                    c.send_capacity = 3
                else:
                    c.shut_wr = True
            d = b"<message %d>" % i
            sent.append(d)
            sv.route(2, d)
            if ex.choose(2, label="pause"):
                env.settle()
                if i < at:
                    env.check(bytes(c.to_server) == b"".join(sent), "the local server got %r", bytes(c.to_server))
        env.settle(40)
        if kind in ("no-capacity", "partial"):
            c.send_capacity = None
            d = b"<after the loss>"
            sv.route(2, d)
            sent.append(d)
        env.settle(60)
        got = bytes(c.to_server)
        want = b"".join(sent)
        env.check(want.startswith(got), "the local server got %r: a gap", got)
        env.check(len(got) >= safe, "the local server got only %r", got)
        if kind != "reset":
            env.check(got != want, "nothing was lost?")
            env.check(kind == "exit" or c.server_sees_eof, "data was lost but the connection goes on")
        env.check(len(sv.closes(2)) >= 1, "data was lost but the channel is not closed")
        env.ping()

    env.run(main)


SIZES = [0, 1, 2, 255, 256, 4095, 4096, 65535, 65536, 65537, CHUNK - 1, CHUNK, CHUNK + 1, 2 * CHUNK + 1]


def sizes(ex):
    """Amounts of data around every buffer boundary, both ways, before and after connecting."""
    n = ex.pick(SIZES, label="size")
    early = ex.choose(2, label="before connecting")
    via = opener(ex)
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        port = open_via(sv, via, 3)
        if not early:
            env.settle()
        win = b""
        for i in range(3):
            d = blob(i, n) + b"|"
            sv.route(3, d)
            win += d
        env.settle()
        c, = local.on(port)
        wout = b""
        for i in range(2):
            d = blob(10 + i, n) + b"!"
            c.server_send(d)
            wout += d
            env.settle()
        env.check(bytes(c.to_server) == win, "the local server got %d bytes, not %d (or damaged)", len(c.to_server), len(win))
        env.check(sv.data(3) == wout, "the channel carried %d bytes, not %d (or damaged)", len(sv.data(3)), len(wout))
        c.server_send(blob(77, n))
        c.server_close()
        env.settle(20)
        env.check(sv.data(3) == wout + blob(77, n), "the last data before the close is missing or damaged")
        ex.note(n, early, via)

    env.run(main)


def pace(ex):
    """The local server takes the data slowly, in pieces."""
    piece = ex.pick([1, 7, 100, 5000], label="piece")
    every = ex.pick([0.0, 1.0, 4.5], label="interval")
    env = agent.Env(ex, preempt=False, time_horizon=1e6, horizon=500000)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env, capacity=0)
        kit.open_forward(sv, 3)
        msgs = [blob(i, 10 * piece + i) for i in range(3)]
        sv.route(3, msgs[0])
        for _ in range(80):
            env.settle(every or None)
            c = local.conns[0]
            c.send_capacity += piece
            if _ in (1, 5):
                sv.route(3, msgs[1 + (_ == 5)])
        c.send_capacity = None
        env.settle(30)
        env.check(bytes(c.to_server) == b"".join(msgs), "the local server got %d bytes, not %d (or damaged)",
                  len(c.to_server), sum(len(m) for m in msgs))
        env.check(not c.server_sees_eof and not sv.closes(3), "the connection ended")
        ex.note(piece, every)

    env.run(main)


def many(ex):
    """Many small messages, before and after the connection is up."""
    n = ex.pick([10, 200, 1500], label="count")
    early = ex.pick([0, 1, 2], label="early")
    env = agent.Env(ex, preempt=False, time_horizon=1e6, horizon=2000000)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        local = kit.Local(env)
        kit.open_forward(sv, 3)
        if early == 0:
            env.settle()
        want = b""
        for i in range(n):
            sv.route(3, b"%d," % i)
            want += b"%d," % i
            if early == 2 and i == n // 2:
                env.settle()
        env.settle()
        env.check(bytes(local.conns[0].to_server) == want, "damaged in %d messages", n)
        ex.note(n, early)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    return [
        Family("histories", histories, 0, 5 if deep else 4, about="both directions in any order, stalls, ends"),
        Family("cycles", histories, 0, core.Cycled(3, 30) if deep else core.Cycled(2, 30), about="the same few events, over and over"),
        Family("losses", losses, 0, about="lost data"),
        Family("sizes", sizes, 0, about="sizes"),
        Family("pace", pace, 0, about="slow local servers"),
        Family("many", many, 0, about="many messages"),
        Family("race-in", schedules, b, "in", about="data races the connect"),
        Family("race-both", schedules, 1 if not deep else 2, "both", about="both directions"),
        Family("race-reply-close", schedules, b, "reply-close", about="answer and close"),
        Family("race-in-close", schedules, b, "in-close", about="data, then the channel closes"),
        Family("race-two", schedules, 1 if not deep else 2, "two", about="two connections"),
    ]
