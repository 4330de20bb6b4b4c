"""C36: however a connection fails, the agent connects again, soon and not too often (real websocket library)."""
import errno
import signal
import socket
import struct
import zlib

from .. import agent, boot, core, kit, vos
from ..main import Family
from ..wsserver import WsServer
from ..agent import P

# from the failure to the next attempt: the back-off of 5 to 30 s and the granularity of the loops
SOON = 60
# attempts in a minute while they fail
OFTEN = 14

_getaddrinfo = socket.getaddrinfo
RESOLVE = None


def resolve(host, *args, **kw):
    if RESOLVE is not None and core.S is not None:
        r = RESOLVE(host)
        if r is not None:
            raise r
    return _getaddrinfo(host, *args, **kw)


class Front(object):
    """What is in front of the server: every connection attempt is seen, and treated as told."""

    def __init__(self, env):
        global RESOLVE
        from dataplicity.m2m import wsclient
        self.env = env
        wsclient.WebSocket = boot.RealWebSocket
        socket.getaddrinfo = resolve
        RESOLVE = self.resolved
        self.attempts = []  # times
        self.conns = []
        self.unknown = None
        self.treat = None
        self.local = kit.Local(env)
        self.shells = kit.Shells(env)
        env.w.listeners[("127.0.0.1", 9000)] = self.accept

    def resolved(self, host):
        if self.unknown is not None:
            self.attempts.append(self.env.s.now)
        return self.unknown

    def accept(self, conn):
        self.attempts.append(self.env.s.now)
        if self.treat is not None:
            return self.treat
        self.conns.append(conn)
        return None

    def wait(self, seconds, until, step=1):
        env = self.env
        end = env.s.now + seconds
        while not until() and env.s.now < end - 1e-6:
            env.fresh()
            env.settle(step)
        return until()

    def next(self, n, what):
        """The attempt number n + 1 is made soon."""
        ok = self.wait(SOON, lambda: len(self.attempts) > n)
        self.env.check(ok, "after %s there is no new attempt to connect for %d s", what, SOON)

    def join(self, what):
        """The newest connection works."""
        env = self.env
        self.ws = ws = WsServer(env, self.conns[-1], True)
        env.settle()
        ws.handshake()
        env.settle()
        ws.parse()
        env.check(ws.messages == [[P["request_join"]]], "after %s and connecting: %r", what, ws.messages)
        ws.packet("set_identity", b"node-%d" % len(self.conns), deflate=True)
        ws.packet("ping", b"after " + what.encode(), deflate=True)
        env.settle()
        ws.parse()
        env.check([P["pong"], b"after " + what.encode()] in ws.messages, "after %s a ping is not answered: %r", what, ws.messages)
        del ws.messages[:]

    def calm(self):
        for t in self.attempts:
            n = sum(t <= u < t + 60 for u in self.attempts)
            self.env.check(n <= OFTEN, "%d attempts to connect in a minute", n)


def over(conn):
    return conn.server_sees_eof or conn.rst


def answer(status=b"101 Switching Protocols", accept=None, upgrade=b"websocket", more=b"", end=b"\r\n"):
    def reply(front, conn):
        ws = WsServer(front.env, conn)
        ws.handshake()
        good = bytes(conn.from_server)
        i = good.index(b"Sec-WebSocket-Accept: ") + 22
        del conn.from_server[:]
        acc = good[i:good.index(b"\r\n", i)] if accept is None else accept
        conn.server_send(b"HTTP/1.1 " + status + b"\r\nUpgrade: " + upgrade + b"\r\nConnection: Upgrade\r\n" + (
            b"Sec-WebSocket-Accept: " + acc + b"\r\n" if acc else b"") + more + end)
    return reply


def text(data, then=None):
    def reply(front, conn):
        if data:
            conn.server_send(data)
        if then:
            getattr(conn, then)()
    return reply


# the connection is made, and then
HANDSHAKES = {
    "closed": text(b"", "server_exit"), "reset": text(b"", "server_reset"), "half": text(b"HTTP/1.1 101 Sw", "server_exit"),
    "half-reset": text(b"HTTP/1.1 101 Switching Protocols\r\nUpgr", "server_reset"), "garbage": text(b"\x00\xff\r\n\r\n", "server_exit"),
    "long": text(b"X" * 20000), "empty": text(b"\r\n\r\n"), "forbidden": answer(b"403 Forbidden"), "gone": answer(b"502 Bad Gateway", more=b"Content-Length: 3\r\n", end=b"\r\nbad"),
    "no-number": answer(b"OK"), "moved": answer(b"301 Moved", more=b"Location: /else\r\n"), "not-ours": answer(accept=b"AAAA"), "no-accept": answer(accept=b""),
    "no-upgrade": answer(upgrade=b"h2c"), "bits": answer(more=b"Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits=77\r\n"),
    "bits-text": answer(more=b"Sec-WebSocket-Extensions: permessage-deflate; server_max_window_bits=x\r\n"),
    "not-text": answer(more=b"X-\xff: \xfe\xff\r\n", accept=b"\xff\xfe"),
}
# no connection is made
NONE = {
    "refuse": dict(treat="refuse"), "timeout": dict(treat="timeout"), "unknown": dict(unknown=socket.gaierror(-2, "Name or service not known")),
    "later": dict(unknown=socket.gaierror(-3, "Temporary failure in name resolution")),
}


def frame(b0, data=b"", mask=False):
    n = len(data)
    h = struct.pack("!B", b0) + (struct.pack("!B", n | 0x80 * mask) if n < 126 else struct.pack("!BH", 126, n))
    return h + (b"\0\0\0\0" if mask else b"") + data


def far(data, then=None):
    def do(ws):
        if data:
            ws.conn.server_send(data)
        if then:
            getattr(ws.conn, then)()
    return do


_bomb = zlib.compressobj(6, zlib.DEFLATED, -15)
# the connection is working, and then
ENDS = {
    "closed": far(b"", "server_exit"), "reset": far(b"", "server_reset"), "goodbye": far(frame(0x88, b"\x03\xe8bye"), "server_exit"),
    "going-away": far(frame(0x88, b"\x03\xe9"), "server_close"), "goodbye-open": far(frame(0x88, b"\x03\xe8")), "goodbye-empty": far(frame(0x88)),
    "bad-code": far(frame(0x88, b"\x03\xed")), "short-code": far(frame(0x88, b"\x03")), "bad-reason": far(frame(0x88, b"\x03\xe8\xff\xfe")),
    "half-frame": far(frame(0x82, b"x" * 50)[:20], "server_exit"), "half-reset": far(b"\x82", "server_reset"), "masked": far(frame(0x82, b"12", True)),
    "opcode": far(frame(0x83, b"x")), "opcode-c": far(frame(0x8b)), "rsv": far(frame(0xa2, b"x")), "rsv3": far(frame(0x92, b"x")),
    "continued": far(frame(0x80, b"x")), "unfinished": far(frame(0x02, b"l") + frame(0x82, b"x")), "long-ping": far(frame(0x89, b"p" * 200)),
    "ping-parts": far(frame(0x09, b"p")), "not-deflate": far(frame(0xc2, b"\xff\xff\xff\xff\xff")), "not-utf8": far(frame(0x81, b"\xff\xfe")),
    "huge": far(b"\x82\xff" + b"\xff" * 8), "huge-half": far(b"\x82\xff" + b"\0\0\0\0\x7f\xff\xff\xff" + b"data", "server_reset"),
}


def never_works(front, kind, what):
    """One attempt fails; the time from then to the next one is up to `next`."""
    env = front.env
    n = len(front.attempts)
    if kind in NONE:
        for k, v in NONE[kind].items():
            setattr(front, k, v)
        # the attempt going on is not affected any more when it is the one that has been accepted
        front.next(n, what)
        if kind == "timeout":
            front.wait(40, lambda: False, 40)
        front.treat = front.unknown = None
    else:
        front.next(n, what)
        env.settle()
        HANDSHAKES[kind](front, front.conns[-1])
        env.settle()


def attempts(ex):
    """Attempts fail in any way, one after the other; the first one that can succeed does."""
    depth, kinds = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=4000)

    def main():
        front = Front(env)
        seq = [ex.pick(kinds, label="attempt") for _ in range(depth)]
        if seq[0] in NONE:
            for k, v in NONE[seq[0]].items():
                setattr(front, k, v)
        env.start_agent(m2m_url="ws://127.0.0.1:9000/m2m/")
        what = "the start"
        for i, kind in enumerate(seq):
            if i == 0 and kind in NONE:
                front.next(0, what)
                if kind == "timeout":
                    front.wait(40, lambda: False, 40)
                front.treat = front.unknown = None
            elif i == 0:
                env.settle()
                HANDSHAKES[kind](front, front.conns[-1])
                env.settle()
            else:
                never_works(front, kind, what)
            what = kind
            for c in front.conns:
                env.check(front.wait(35, lambda: over(c)), "after %s the connection is not closed", what)
        n = len(front.conns)
        env.check(front.wait(SOON, lambda: len(front.conns) > n), "after %s there is no new connection for %d s", what, SOON)
        front.join(what)
        front.calm()
        ex.note(seq)

    env.run(main)


def ends(ex):
    """A working connection ends in any way, with something open on it, one after the other."""
    depth, kinds, uses, fails = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=4000)

    def main():
        front = Front(env)
        env.start_agent(m2m_url="ws://127.0.0.1:9000/m2m/")
        env.settle()
        front.join("the start")
        for i in range(depth):
            use = ex.pick(uses, label="open")
            procs, conns = len(front.shells.procs), len(front.local.conns)
            if use != "nothing":
                front.ws.packet("instruction", b"s", dict(action=b"open-terminal", port=5, name=b"shell"))
                front.ws.packet("instruction", b"s", dict(action=b"open-portforward", service=b"web", route=[b"a", 1, b"b", 4]))
                env.settle()
                env.check(len(front.shells.procs) > procs and len(front.local.conns) > conns, "nothing has been opened")
            kind = ex.pick(kinds, label="end")
            old, n = front.ws.conn, len(front.attempts)
            if use == "sending":
                for p in front.shells.ptys[procs:]:
                    p.out += b"text " * 50
                for c in front.local.conns[conns:]:
                    c.server_send(b"more " * 50)
            ENDS[kind](front.ws)
            env.settle()
            # a close frame is answered, and the server given half a minute to close the connection
            env.check(front.wait(45, lambda: over(old)), "%s: the connection is kept", kind)
            what = kind
            fail = ex.pick(fails, label="before the next")
            if fail != "nothing":
                never_works(front, fail, what)
                what = fail
                n = len(front.attempts)
            m = len(front.conns)
            if fail == "nothing":
                front.next(n, what)
            else:
                env.check(front.wait(SOON, lambda: len(front.conns) > m), "after %s there is no new connection for %d s", what, SOON)
            for p in front.shells.procs[procs:]:
                env.check(signal.SIGHUP in [s for _, s in p.signals], "a terminal of the lost connection (%s) is still open", kind)
            for c in front.local.conns[conns:]:
                env.check(c.server_sees_eof, "a forwarded connection of the lost connection (%s) is still open", kind)
            front.join(what)
            ex.note(kind, use, fail)
        front.calm()

    env.run(main)


def long(ex):
    """The same failure for an hour: attempts go on, not too often, and then one succeeds."""
    kind = ex.pick(sorted(NONE) + ["closed", "forbidden", "garbage", "half-reset"], label="failure")
    n = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=n * 80 + 1000)

    def main():
        front = Front(env)
        env.start_agent(m2m_url="ws://127.0.0.1:9000/m2m/")
        env.settle()
        front.join("the start")
        ENDS["reset"](front.ws)
        if kind in NONE:
            for k, v in NONE[kind].items():
                setattr(front, k, v)
        for i in range(n):
            env.fresh()
            if kind in NONE:
                front.next(len(front.attempts), "%d times %s" % (i, kind))
            else:
                never_works(front, kind, "%d times %s" % (i, kind))
        front.treat = front.unknown = None
        m = len(front.conns)
        env.check(front.wait(SOON + 40, lambda: len(front.conns) > m), "after %d times %s there is no new connection", n, kind)
        front.join(kind)
        front.calm()
        ex.note(kind)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    every = sorted(HANDSHAKES) + sorted(NONE)
    few = ["nothing", "refuse", "forbidden", "half"]
    return [
        Family("attempts", attempts, 0, (3 if deep else 2, every), about="attempts that fail"),
        Family("ends", ends, 0, (2, sorted(ENDS), ["nothing", "busy", "sending"], few) if deep else (1, sorted(ENDS), ["nothing", "busy", "sending"], few), about="connections that end"),
        Family("ends-twice", ends, 0, (3 if deep else 2, sorted(ENDS), ["sending"], ["nothing"]), about="one after the other"),
        Family("long", long, 0, 150 if deep else 60, about="failing for long"),
    ]
