"""The whole agent, closed by a harness-controlled M2M server, web API and machine.

The M2M server is reached through a stand-in for lomond.WebSocket (the library the
agent uses); everything above it, including lomond's reconnect loop, is the real code.
The wire codec here is an independent implementation of the documented format.
"""
import collections
import json
import os
import random

from . import core, vos, vthread


# -- independent codec ---------------------------------------------------

def benc(o):
    if isinstance(o, bool):
        raise core.HarnessError("bool")
    if isinstance(o, int):
        return b"i%de" % o
    if isinstance(o, str):
        o = o.encode("utf-8")
    if isinstance(o, bytes):
        return b"%d:%s" % (len(o), o)
    if isinstance(o, (list, tuple)):
        return b"l" + b"".join(benc(i) for i in o) + b"e"
    if isinstance(o, dict):
        return b"d" + b"".join(
            benc(k) + benc(o[k]) for k in sorted(
                o, key=lambda k: k if isinstance(k, bytes) else k.encode("utf-8"))) + b"e"
    raise core.HarnessError("cannot encode %r" % (o,))


class BadEncoding(Exception):
    pass


def bdec(data):
    """Strict decoder: canonical integers and lengths, nothing trailing."""
    v, i = _bdec(data, 0)
    if i != len(data):
        raise BadEncoding("trailing data")
    return v


def _bdec(d, i):
    c = d[i:i + 1]
    if c == b"i":
        j = d.index(b"e", i)
        t = d[i + 1:j]
        n = int(t)
        if b"%d" % n != t:
            raise BadEncoding("integer")
        return n, j + 1
    if c == b"l":
        out = []
        i += 1
        while d[i:i + 1] != b"e":
            v, i = _bdec(d, i)
            out.append(v)
        return out, i + 1
    if c == b"d":
        out = {}
        i += 1
        last = None
        while d[i:i + 1] != b"e":
            k, i = _bdec(d, i)
            if last is not None and not last < k:
                raise BadEncoding("key order")
            last = k
            out[k], i = _bdec(d, i)
        return out, i + 1
    if c.isdigit():
        j = d.index(b":", i)
        t = d[i:j]
        n = int(t)
        if b"%d" % n != t:
            raise BadEncoding("length")
        if j + 1 + n > len(d):
            raise BadEncoding("short")
        return d[j + 1:j + 1 + n], j + 1 + n
    raise BadEncoding("%r" % c)


# Packet numbers of the wire protocol (part of the protocol, not of the code)
P = {
    "null": 0, "request_join": 1, "request_identify": 2, "welcome": 3, "log": 4,
    "request_send": 5, "route": 6, "ping": 7, "pong": 8, "set_identity": 9,
    "request_open": 10, "request_close": 11, "request_close_all": 12, "keep_alive": 13,
    "notify_open": 14, "request_login": 15, "instruction": 16, "notify_login_success": 17,
    "notify_login_fail": 18, "notify_close": 19, "request_leave": 20, "route_control": 21,
    "request_send_control": 22, "open_remote_file": 24, "open_remote_file_result": 25, "close_remote_file": 26,
    "read_remote_file": 27, "read_remote_file_result": 28, "scan_remote_directory": 29,
    "scan_remote_directory_result": 30, "write_remote_file": 31, "write_remote_file_result": 32,
    "response": 100, "command_add_route": 101, "command_send_instruction": 102, "command_log": 103,
    "command_broadcast_log": 104, "command_set_name": 106, "command_check_nodes": 107, "command_get_identities": 108,
    "command_set_auth": 109, "command_set_meta": 110, "command_get_meta": 111, "peer_add_route": 200,
    "peer_forward": 201, "peer_notify_disconnect": 202, "peer_notify_name": 203, "peer_close_port": 204,
}  # what the protocol says, not what the code says


Sent = collections.namedtuple("Sent", "conn type fields time raw")


# the ways a connection ends: lost, closed by the server, no answer to pings
ENDS = ("fail", "bye", "silent")


class Server(object):
    """The M2M server, as the harness sees it."""

    def __init__(self, world):
        self.world = world
        self.inbox = collections.deque()
        self.sent = []  # everything the agent has sent, in order
        self.conn = 0  # number of the current connection
        self.up = False
        self.bad = None
        self.delivered = 0
        self.on_send = None

    # to the agent
    def push(self, *ev):
        self.inbox.append(ev)

    def connect(self):
        self.push("ready")

    def raw(self, data):
        self.push("binary", data)

    def packet(self, name, *fields):
        n = P[name] if isinstance(name, str) else name
        self.raw(benc([n] + list(fields)))

    def instruct(self, **data):
        self.packet("instruction", b"sender", data)

    def route(self, ch, data):
        self.packet("route", ch, data)

    def control(self, ch, obj):
        self.packet("route_control", ch, json.dumps(obj) if isinstance(obj, dict) else obj)

    def close_channel(self, ch):
        self.packet("notify_close", ch)

    def disconnect(self, kind="fail"):
        """The connection ends, in one of ENDS."""
        self.push("disconnect", kind)

    def drained(self):
        """Everything pushed has been handled by the agent."""
        return not self.inbox

    # from the agent
    def receive(self, data):
        try:
            v = bdec(bytes(data))
        except Exception as e:
            raise core.Violation("the agent sent a message that is not well formed: %r (%s)" % (data, e))
        if not isinstance(v, list) or not v or not isinstance(v[0], int):
            raise core.Violation("the agent sent a malformed packet: %r" % (data,))
        s = Sent(self.conn, v[0], v[1:], core.S.now, bytes(data))
        self.sent.append(s)
        core.S.obs("sent", self.conn, v if len(data) < 200 else (v[0], len(data)))
        if self.on_send is not None:
            self.on_send(s)

    def of(self, name, conn=None):
        n = P[name]
        return [s for s in self.sent if s.type == n and (conn is None or s.conn == conn)]

    def data(self, ch, conn=None):
        """All bytes the agent has sent on a channel."""
        return b"".join(s.fields[1] for s in self.of("request_send", conn) if s.fields[0] == ch)

    def controls(self, ch, conn=None):
        return [json.loads(s.fields[1].decode("utf-8"))
                for s in self.of("request_send_control", conn) if s.fields[0] == ch]

    def closes(self, ch, conn=None):
        return [s for s in self.of("request_close", conn) if s.fields[0] == ch]


def _lomond():
    import lomond.events as ev
    import lomond.errors as er
    return ev, er


class FakeWebSocket(object):
    """lomond.WebSocket, its network replaced by a Server."""

    def __init__(self, url, proxies=None, protocols=None, agent=None, compress=False):
        self.url = url
        self.agent = agent
        self.compress = compress
        self.server = core.S.server if core.S is not None and hasattr(core.S, "server") else None
        self._closing = False
        if self.server is not None:
            self.server.websockets = getattr(self.server, "websockets", []) + [self]

    def __repr__(self):
        return "WebSocket(%r)" % self.url

    def add_header(self, h, v):
        self.headers = getattr(self, "headers", []) + [(h, v)]

    @property
    def is_closed(self):
        return not self.server.up

    @property
    def is_active(self):
        return self.server.up

    @property
    def is_closing(self):
        return self._closing

    @property
    def supports_compression(self):
        return self.compress

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def connect(self, **kw):
        ev, er = _lomond()
        sv = self.server
        yield ev.Connecting(self.url)
        while True:
            core.S.block(lambda: bool(sv.inbox), None, "websocket recv")
            e = sv.inbox[0]
            kind = e[0]
            sv.inbox.popleft()
            sv.delivered += 1
            if kind == "ready":
                sv.conn += 1
                sv.up = True
                self._closing = False
                yield ev.Connected(self.url)
                yield ev.Ready(None, None, set())
            elif kind == "fail":
                yield ev.ConnectFail("unable to connect")
                return
            elif kind == "rejected":
                yield ev.Connected(self.url)
                yield ev.Rejected(None, "rejected")
                yield ev.Disconnected("rejected")
                return
            elif kind == "disconnect":
                how = e[1] if len(e) > 1 else "fail"
                if how == "bye":
                    yield ev.Closing(1000, b"goodbye")
                    self._closing = True
                    sv.up = False
                    yield ev.Disconnected(graceful=True)
                    return
                if how == "silent":
                    yield ev.Unresponsive()
                sv.up = False
                yield ev.Disconnected("socket fail", graceful=False)
                return
            elif kind == "poll":
                yield ev.Poll()
            elif kind == "binary":
                yield ev.Binary(e[1])
            elif kind == "text":
                yield ev.Text(e[1])
            elif kind == "call":
                e[1]()
            else:
                raise core.HarnessError(kind)

    __iter__ = connect

    def _check(self):
        ev, er = _lomond()
        if not self.server.up:
            raise er.WebSocketUnavailable("not connected")
        if self._closing:
            raise er.WebSocketClosing("data not sent")

    def send_binary(self, data, compress=True):
        core.S.point("websocket.send")
        self._check()
        if not isinstance(data, bytes):
            raise TypeError("data argument must be bytes")
        self.server.receive(data)
        core.S.point("websocket.sent")

    def send_text(self, text, compress=True):
        self._check()
        raise core.Violation("the agent sent a text message")

    def send_ping(self, data=b""):
        self._check()

    send_pong = send_ping

    def close(self, code=1000, reason=b"goodbye"):
        core.S.point("websocket.close")
        self._closing = True
        self.server.closed_by_agent = True

    def force_disconnect(self):
        self.server.inbox.appendleft(("disconnect",))


class Api(object):
    """The web API: answers JSON-RPC batches; every request is recorded."""

    def __init__(self):
        self.requests = []  # decoded bodies
        self.urls = []
        self.behave = None  # fn(n, calls) -> "ok" | exception | bytes | list of replies

    def __call__(self, url, data):
        calls = json.loads(data.decode("utf-8"))
        n = len(self.requests)
        self.requests.append(calls)
        self.urls.append(url)
        core.S.obs("api", n, [c.get("method") for c in calls] if isinstance(calls, list) else calls)
        b = "ok" if self.behave is None else self.behave(n, calls)
        if isinstance(b, BaseException):
            raise b
        if isinstance(b, bytes):
            return b
        if isinstance(b, vos.VResponse):
            return b
        if b == "ok":
            b = [{"jsonrpc": "2.0", "id": c["id"], "result": True} for c in calls if "id" in c]
        return json.dumps(b).encode("utf-8")

    def methods(self):
        return [[c["method"] for c in r] for r in self.requests]


class Env(object):
    """One execution: scheduler + world + server + api, and the agent when asked for."""

    def __init__(self, ex, points=(), horizon=60000, time_horizon=4000.0, preempt=True):
        self.ex = ex
        random.seed(12345)
        self.s = ex.new_sched(points=points, horizon=horizon, time_horizon=time_horizon, preempt=preempt)
        self.w = vos.World(ex, self.s)
        vos.set_world(self.w)
        vthread.HOOK.thread_start_fault = None
        self.server = Server(self.w)
        self.s.server = self.server
        self.api = Api()
        self.w.api = self.api
        self.client = None
        self.errors = []

    def choose(self, n, cost=0, label=""):
        return self.ex.choose(n, cost, label)

    def start_agent(self, remote_dir="/nonexistent/remote", **kw):
        """Construct the agent (its connection thread included); call in an env task."""
        from dataplicity.client import Client
        self.s.atomic += 1
        try:
            args = dict(rpc_url="https://api.test/", m2m_url="ws://m2m.test/", serial="SERIAL",
                        auth_token="TOKEN", remote_directory_path=remote_dir)
            args.update(kw)
            self.client = Client(**args)
        finally:
            self.s.atomic -= 1
        return self.client

    def run(self, main):
        """Run main() as the environment's task, to the end; then everything else is torn down."""
        s = self.s
        done = []

        def body():
            main()
            done.append(True)
            s.stop = True

        s.spawn(body, "env", kind="env")
        s.run()
        if not done:
            blocked = [(t.name, t.why) for t in s.unfinished]
            raise core.Violation("deadlock: the run cannot go on; blocked: %r" % (blocked,))

    def fresh(self):
        """A new unit of work begins: the livelock horizon counts from here."""
        self.ex.steps += self.s.steps
        self.s.steps = 0

    def fail(self, msg, *args):
        raise core.Violation(msg % args if args else msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise core.Violation(msg % args if args else msg)

    # common server side scenarios
    def up(self):
        """Connect and settle."""
        self.server.connect()
        self.server.packet("set_identity", b"node-1")
        self.server.packet("welcome")
        self.s.settle()

    def settle(self, seconds=None):
        self.s.settle(seconds)

    def ping(self, data=b"are you there"):
        """The session still works: a ping is answered."""
        n = len(self.server.of("pong"))
        self.server.packet("ping", data)
        self.s.settle()
        pongs = self.server.of("pong")[n:]
        if [p.fields for p in pongs] != [[data[:1024]]]:
            raise core.Violation("a ping was answered with %r" % ([p.fields for p in pongs],))
