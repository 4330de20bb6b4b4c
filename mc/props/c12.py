"""C12: port forwarding connects only where it was told to, on this machine."""
from .. import agent, core, kit
from ..main import Family

SERVICES = {b"web": 80, b"ext": 81, b"extalt": 8000, b"alt": 8080}
LOOP = "127.0.0.1"


class Rig(object):
    def __init__(self, env):
        self.env = env
        self.sv = env.server
        self.expected = []  # connects, in order
        self.live = []  # (ch, port, conn)
        self.local = kit.Local(env, ports=(22, 80, 81, 443, 8000, 8080, 1, 65535, 5900))
        self.next = 20

    def ask(self, ch, kind, *args):
        """One request; returns the port it must connect to, or None."""
        sv = self.sv
        if kind == "service":
            sv.instruct(action=b"open-portforward", service=args[0], route=[b"node-9", 3, b"node-1", ch])
            return SERVICES.get(args[0])
        if kind == "redirect":
            sv.instruct(action=b"open-portredirect", device_port=args[0], m2m_port=ch)
            return args[0]
        if kind == "bad":
            d = dict(args[0])
            for k, v in d.items():
                if v == "CH":
                    d[k] = ch
                elif v == "ROUTE":
                    d[k] = [b"node-9", 3, b"node-1", ch]
            sv.instruct(**d)
            return None
        raise core.HarnessError(kind)

    def connects(self):
        return list(self.env.w.connect_log)

    def verify(self):
        self.env.check(self.connects() == self.expected, "connected to %r, not %r", self.connects(), self.expected)


GOOD = [("service", s) for s in sorted(SERVICES)] + [("redirect", p) for p in (22, 80, 443, 8000, 1, 65535)]
PF = {"action": b"open-portforward", "service": b"web", "route": "ROUTE"}
PR = {"action": b"open-portredirect", "device_port": 22, "m2m_port": "CH"}


def without(d, *keys):
    return {k: v for k, v in d.items() if k not in keys}


def with_(d, **kw):
    d = dict(d)
    d.update(kw)
    return d


BAD = [("service", s) for s in (b"", b"Web", b"web ", b"WEB", b"80", b"ssh", b"\xff", b"webext", b"127.0.0.1",
                                b"we", b"e", b"ex", b"al", b"a", b"extal", b"xt", b"web\0", b"web.", b"W\xc4\x93b")]
BAD += [("bad", d) for d in (
    with_(PF, service=80), with_(PF, service=0), with_(PF, service=[b"web"]), with_(PF, service={b"web": 1}),
    without(PF, "service"), without(PF, "route"), with_(PF, route=b""), with_(PF, route=[]), with_(PF, route=[b"a", 1, b"b"]),
    with_(PF, route=[b"a", 1, b"b", 4, 5]), with_(PF, route=7), without(PR, "device_port"), without(PR, "m2m_port"),
    {"action": b"open-portforwar", "service": b"web", "route": "ROUTE"}, {"action": b"portredirect", "device_port": 22, "m2m_port": "CH"},
    with_(PF, action=b"OPEN-PORTFORWARD"), with_(PR, action=b""),
    with_(PR, device_port=65536), with_(PR, device_port=65536 + 80), with_(PR, device_port=-80), with_(PR, device_port=80 - 65536),
    with_(PR, device_port=2 ** 32 + 80), with_(PR, device_port=2 ** 70), with_(PR, device_port=b"80"), with_(PR, device_port=[80]),
    with_(PR, device_port=b"web"), with_(PR, device_port={b"": 80}), with_(PR, device_port=b""),
)]


def singles(ex):
    """Every request alone, then a good one after it."""
    req = ex.pick(GOOD + BAD, label="request")
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        env.up()
        r = Rig(env)
        ex.note(req)
        port = r.ask(3, *req)
        env.settle(20)
        if port is not None:
            r.expected.append((LOOP, port))
        r.verify()
        port = r.ask(4, "service", b"alt")
        r.expected.append((LOOP, port))
        env.settle(20)
        r.verify()
        env.sv = env.server
        env.server.route(4, b"hello")
        env.settle()
        env.check(bytes(r.local.conns[-1].to_server) == b"hello", "the good request got %r", r.local.conns[-1].to_server)

    env.run(main)


def ports(ex):
    """Every port number of a redirect, one after the other."""
    block = ex.choose(64, label="block")
    env = agent.Env(ex, preempt=False, horizon=3000000, time_horizon=1e6)

    def main():
        env.start_agent()
        env.up()
        r = Rig(env)
        lo = block * 1024
        for p in range(max(1, lo), lo + 1024, 1 if block in (0, 7, 8, 63) else 13):
            env.fresh()
            r.ask(100000 + p, "redirect", p)
            env.settle()
            r.expected.append((LOOP, p))
        env.settle(10)
        r.verify()

    env.run(main)


def histories(ex):
    """Sequences of requests; the traffic of each goes to its own connection."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)
    menu = [("service", b"web"), ("service", b"alt"), ("redirect", 80), ("redirect", 22), ("redirect", 9),
            ("service", b"nope"), ("bad", without(PF, "route")), ("close", 0), ("fin", 0), ("again", 0)]

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        r = Rig(env)
        live = []
        used = []
        last = None
        for step in range(ex.cycled(depth)):
            env.fresh()
            req = ex.pick(menu, label="request")
            ex.note(req)
            if req[0] == "close":
                if live:
                    sv.close_channel(live.pop(0)[0])
            elif req[0] == "fin":
                if live:
                    live.pop()[2].server_close()
                    env.settle(6)
            else:
                if req[0] == "again":
                    req = last or ("service", b"ext")
                last = req
                # new numbers, and numbers whose connection has ended
                old = [c for c in used if c not in [x[0] for x in live]]
                ch = old[0] if old and req[0] != "service" else [30, 7, 900][step % 3] + step
                if ch in used:
                    sv.close_channel(ch)
                    env.settle()
                used.append(ch)
                before = sv.data(ch)
                n = len(r.local.conns)
                port = r.ask(ch, *req)
                if ex.choose(2, label="pile") == 0 or port == 9:
                    env.settle()
                else:
                    env.s.block(lambda: sv.drained(), 5, "drained")
                    env.settle()
                if port is not None:
                    r.expected.append((LOOP, port))
                    if port != 9:
                        env.check(len(r.local.conns) == n + 1, "no connection was made for %r", req)
                        live.append((ch, port, r.local.conns[n], b"", before))
            env.settle()
            r.verify()
            new = []
            for ch, port, c, win, wout in live:
                env.check(c.host_port == (LOOP, port), "channel %d is connected to %r", ch, c.host_port)
                win += b"to %d at %d;" % (ch, step)
                wout += b"from %d at %d;" % (ch, step)
                sv.route(ch, b"to %d at %d;" % (ch, step))
                c.server_send(b"from %d at %d;" % (ch, step))
                new.append((ch, port, c, win, wout))
            live = new
            env.settle()
            for ch, port, c, win, wout in live:
                env.check(bytes(c.to_server) == win, "channel %d: the server on %d got %r", ch, port, bytes(c.to_server))
                env.check(sv.data(ch) == wout, "channel %d carried %r", ch, sv.data(ch))
        env.settle(10)
        r.verify()

    env.run(main)


def burst(ex):
    """Requests handled in one go, before any connection is up; statement-level schedules."""
    reqs = ex.params
    env = agent.Env(ex, points=("dataplicity.portforward", "dataplicity.m2mmanager"))

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        sv = env.server
        r = Rig(env)
        env.s.preempt = True
        want = []
        for i, q in enumerate(reqs):
            want.append((LOOP, r.ask(40 + i, *q)))
            sv.route(40 + i, b"for %d" % i)
        env.settle(1)
        env.s.preempt = False
        env.settle(10)
        env.check(sorted(r.connects()) == sorted(want), "connected to %r, not %r", r.connects(), want)
        used = []
        for i, (h, p) in enumerate(want):
            c = [c for c in r.local.on(p) if bytes(c.to_server) == b"for %d" % i]
            env.check(len(c) == 1, "the data for request %d (port %d) is at %r", i, p,
                      [(k.host_port, bytes(k.to_server)) for k in r.local.conns])
            used.append(c[0])
        for i, c in enumerate(used):
            c.server_send(b"re %d" % i)
        env.settle(6)
        for i in range(len(used)):
            env.check(sv.data(40 + i) == b"re %d" % i, "channel %d carried %r", 40 + i, sv.data(40 + i))
        ex.note(r.connects())

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 2 if deep else 1
    return [
        Family("singles", singles, 0, about="every request, valid or not"),
        Family("ports", ports, 0, about="port numbers"),
        Family("histories", histories, 0, 4 if deep else 3, about="sequences, with traffic"),
        Family("cycles", histories, 0, core.Cycled(3, 30) if deep else core.Cycled(2, 30), about="the same few events, over and over"),
        Family("burst-same", burst, b, [("service", b"web"), ("service", b"web")], about="same service twice"),
        Family("burst-mixed", burst, b, [("service", b"web"), ("redirect", 22), ("service", b"alt")], about="three at once"),
        Family("burst-redirects", burst, b, [("redirect", 22), ("redirect", 443), ("redirect", 22)], about="redirects"),
    ]
