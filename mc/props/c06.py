"""C06: messages sent by concurrent services arrive intact (real websocket library)."""
from .. import agent, boot, core, kit
from ..main import Family
from ..wsserver import WsServer
from ..agent import P

POINTS = ("lomond.session", "lomond.websocket", "lomond.compression", "lomond.frame", "dataplicity.m2m.wsclient",
          "dataplicity.m2m.packetbase", "dataplicity.m2m.bencode", "dataplicity.portforward")
FEW = ("lomond.session", "lomond.websocket", "lomond.compression", "dataplicity.m2m.wsclient")


def start(env, compress, no_context=False, capacity=None):
    """The agent over a real websocket, joined."""
    from dataplicity.m2m import wsclient
    wsclient.WebSocket = boot.RealWebSocket
    conns = []

    def accept(c):
        conns.append(c)
    env.w.listeners[("127.0.0.1", 9000)] = accept
    env.start_agent(m2m_url="ws://127.0.0.1:9000/m2m/")
    env.settle()
    if len(conns) != 1:
        raise core.Violation("%d connections" % len(conns))
    ws = WsServer(env, conns[0], compress, no_context)
    ws.handshake()
    env.settle()
    ws.packet("set_identity", b"node-1")
    ws.packet("welcome")
    env.settle()
    ws.parse()
    env.check(ws.messages == [[P["request_join"]]], "after connecting: %r", ws.messages)
    del ws.messages[:]
    return ws


TEXTS = [b"the quick brown fox", b"jumps over the lazy dog", b"the quick lazy fox jumps"]


def senders(ex):
    """Threads of the harness write to channels through the agent at the same time."""
    n, compress, no_context, points = ex.params
    env = agent.Env(ex, points=points)

    def main():
        env.s.preempt = False
        ws = start(env, compress, no_context)
        client = env.client.m2m.m2m_client
        done = []

        def sender(i):
            ch = client.get_channel(10 + i)
            ch.write(TEXTS[i] + b" A")
            if i == 1:
                ch.send_control({"k": i})
            else:
                ch.write(TEXTS[i] + b" B")
            done.append(i)
        env.s.preempt = True
        for i in range(n):
            env.s.spawn(lambda i=i: sender(i), "sender%d" % i, kind="agent")
        ws.packet("ping", b"the quick ping")
        env.settle()
        env.check(len(done) == n, "senders stuck or failed: %r", env.s.thread_errors)
        ws.parse()
        want = {}
        for i in range(n):
            want[i] = [[P["request_send"], 10 + i, TEXTS[i] + b" A"]]
            want[i] += [[P["request_send_control"], 11, b'{"k": 1}'] if i == 1
                        else [P["request_send"], 10 + i, TEXTS[i] + b" B"]]
        msgs = list(ws.messages)
        env.check(msgs.count([P["pong"], b"the quick ping"]) == 1, "pongs in %r", msgs)
        for i in range(n):
            got = [m for m in msgs if m[0] != P["pong"] and m[1] == 10 + i]
            env.check(got == want[i], "thread %d: the server received %r, not %r", i, got, want[i])
        env.check(len(msgs) == 2 * n + 1, "the server received %r", msgs)
        ex.note(len(msgs))

    env.run(main)


def services(ex):
    """Two forwarded connections, a terminal, pings and echoes all send at the same time; then more follows."""
    compress, points = ex.params
    env = agent.Env(ex, points=points)

    def main():
        env.s.preempt = False
        local = kit.Local(env)
        shells = kit.Shells(env)
        ws = start(env, compress)

        def instruct(**d):
            ws.packet("instruction", b"s", d)
        instruct(action=b"open-portforward", service=b"web", route=[b"a", 1, b"b", 4])
        instruct(action=b"open-terminal", port=5, name=b"shell")
        instruct(action=b"open-echo", port=6)
        env.settle()
        env.s.preempt = True
        local.conns[0].server_send(b"page " * 30)
        shells.ptys[0].out += b"prompt $ " * 4
        ws.packet("route", 6, b"echo this page", deflate=compress)
        ws.packet("ping", b"prompt", deflate=compress)
        env.settle()
        local.conns[0].server_send(b"more page")
        env.settle()
        ws.packet("ping", b"last")
        env.settle()
        ws.parse()
        by = {}
        for m in ws.messages:
            if m[0] == P["pong"]:
                by.setdefault("pong", []).append(m[1])
            else:
                env.check(m[0] == P["request_send"], "unexpected message %r", m)
                by.setdefault(m[1], []).append(m[2])
        env.check(b"".join(by.get(4, [])) == b"page " * 30 + b"more page", "forward sent %r", by.get(4))
        env.check(b"".join(by.get(5, [])) == b"prompt $ " * 4, "terminal sent %r", by.get(5))
        env.check(by.get(6) == [b"echo this page"], "echo sent %r", by.get(6))
        env.check(by.get("pong") == [b"prompt", b"last"], "pongs %r", by.get("pong"))
        ex.note(sorted(str(k) for k in by))

    env.run(main)


def slow(ex):
    """The network takes the data in pieces while several threads want to send."""
    compress = ex.params
    env = agent.Env(ex)

    def main():
        env.s.preempt = False
        ws = start(env, compress)
        client = env.client.m2m.m2m_client
        done = []

        def sender(i):
            client.get_channel(10 + i).write(TEXTS[i] * 40)
            client.get_channel(10 + i).write(b"%d end" % i)
            done.append(i)
        piece = ex.pick([1, 7, 60, 1000], label="piece")
        ws.conn.send_capacity = 0
        env.s.preempt = True
        for i in range(3):
            env.s.spawn(lambda i=i: sender(i), "sender%d" % i, kind="agent")
        env.settle()
        env.s.preempt = False
        ws.packet("ping", b"p")
        for _ in range(400):
            env.fresh()
            ws.conn.send_capacity += piece * (1 + 1000 * int(len(done) == 3))
            env.settle()
            piece = piece * 2
            if len(done) == 3 and ws.conn.send_capacity > 0:
                break
        env.settle()
        ws.parse()
        env.check(len(ws.messages) == 7, "the server received %d messages", len(ws.messages))
        for i in range(3):
            got = [m[2] for m in ws.messages if m[0] == P["request_send"] and m[1] == 10 + i]
            env.check(got == [TEXTS[i] * 40, b"%d end" % i], "thread %d: %r", i, got)
        env.check([P["pong"], b"p"] in ws.messages, "no pong")
        ex.note(piece)

    env.run(main)


SIZES = [0, 1, 100, 124, 125, 126, 127, 1000, 65530, 65535, 65536, 65600, 1 << 20]


def sizes(ex):
    """Single messages of every size around the frame and compression boundaries."""
    compress = ex.pick([True, False], label="compress")
    noctx = ex.pick([False, True], label="no context") if compress else False
    env = agent.Env(ex, preempt=False)

    def main():
        ws = start(env, compress, noctx)
        client = env.client.m2m.m2m_client
        ch = client.get_channel(3)
        want = []
        for rep in range(2):
            for n in SIZES:
                body = bytes(bytearray((j * j + n + rep) & 255 for j in range(min(n, 5000)))) * (n // 5000 + 1)
                ch.write(body[:n])
                want.append([P["request_send"], 3, body[:n]])
        env.settle()
        ws.parse()
        env.check(ws.messages == want, "messages arrived damaged: sizes %r", [len(m[2]) for m in ws.messages])
        ex.note(compress, noctx)

    env.run(main)


def long_run(ex):
    """Hundreds of messages of several threads and of the session, compressed with what went before."""
    compress = ex.pick([True, False], label="compressed")
    no_context = ex.pick([True, False], label="no context") if compress else False
    n = ex.pick([100, 400], label="messages")
    kind = ex.pick(["same", "counting", "growing", "noise"], label="contents")
    env = agent.Env(ex, preempt=False, horizon=5000000)

    def body(i, j):
        if kind == "same":
            return b"the very same message"
        if kind == "counting":
            return b"message %d of %d" % (j, i)
        if kind == "growing":
            return b"ab%d" % i * j
        return bytes(bytearray((j * 7919 + k * k * (i + 3)) >> 3 & 255 for k in range(200)))

    def main():
        ws = start(env, compress, no_context)
        client = env.client.m2m.m2m_client

        def sender(i):
            ch = client.get_channel(10 + i)
            for j in range(n):
                ch.write(body(i, j))
                core.S.sleep(0.01)
        for i in range(3):
            env.s.spawn(lambda i=i: sender(i), "sender%d" % i, kind="agent")
        for j in range(20):
            ws.packet("ping", b"ping %d" % j)
            env.settle(0.05)
        env.settle(n * 0.02)
        ws.parse()
        msgs = list(ws.messages)
        for i in range(3):
            got = [m[2] for m in msgs if m[0] == P["request_send"] and m[1] == 10 + i]
            env.check(got == [body(i, j) for j in range(n)], "thread %d: %d of %d messages arrived, or not intact", i, len(got), n)
        got = [m[1] for m in msgs if m[0] == P["pong"]]
        env.check(got == [b"ping %d" % j for j in range(20)], "pongs %r", got)
        ex.note(compress, no_context, n, kind)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("sizes", sizes, 0, about="message sizes around frame boundaries"),
        Family("long", long_run, 0, about="hundreds of messages"),
        Family("senders2", senders, 1, (2, True, False, POINTS), about="two threads, compressed"),
        Family("senders3", senders, 1, (3, True, False, POINTS if deep else FEW), about="three threads, compressed"),
        Family("senders2-noctx", senders, 1, (2, True, True, FEW), about="no context takeover"),
        Family("senders2-plain", senders, 1, (2, False, False, POINTS), about="uncompressed"),
        Family("services", services, 2 if deep else 1, (True, FEW), about="forward, terminal, echo, ping"),
        Family("services-plain", services, 2 if deep else 1, (False, FEW), about="the same, uncompressed"),
        Family("slow", slow, 1, True, about="data taken in pieces"),
        Family("slow-plain", slow, 1, False, about="data taken in pieces, uncompressed"),
    ] + ([Family("senders2-deep", senders, 2, (2, True, False, FEW), about="two threads, two preemptions")]
         if deep else [])
