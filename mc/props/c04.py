"""C04: channel data reaches its own service, once, in order."""
import itertools

from .. import agent, core, kit
from ..main import Family

M = "dataplicity."
SHARED = (M + "m2m.wsclient", M + "m2m.dispatcher", M + "portforward", M + "m2m.remoteprocess", M + "m2m.proxy",
          M + "m2m.echoservice")


class Rig(object):
    """An agent with one service per channel, and what each must have seen and said."""

    def __init__(self, env, kinds, numbers):
        self.env = env
        self.sv = env.server
        self.shells = kit.Shells(env)
        self.local = kit.Local(env, ports=range(80, 100))
        self.kinds = kinds
        self.nos = numbers
        self.want_in = [b""] * len(kinds)
        self.want_out = [b""] * len(kinds)
        self.want_msgs = [[] for _ in kinds]
        self.size = [None] * len(kinds)
        self.ends = [None] * len(kinds)

    def open(self):
        for i, k in enumerate(self.kinds):
            n = self.nos[i]
            if k == "echo":
                kit.open_echo(self.sv, n)
            elif k == "term":
                kit.open_term(self.sv, n, size=[24, 80 + i])
                self.size[i] = (80 + i, 24)
            elif k == "fwd":
                kit.open_redirect(self.sv, n, 80 + i)
            elif k == "web":
                kit.open_forward(self.sv, n)

    def bind(self):
        t = w = 0
        for i, k in enumerate(self.kinds):
            if k == "term":
                self.ends[i] = self.shells.ptys[t]
                t += 1
            elif k == "fwd":
                self.ends[i] = self.local.on(80 + i)[0]
            elif k == "web":
                self.ends[i] = self.local.on(80)[w]
                w += 1

    def data(self, i, msg):
        self.sv.route(self.nos[i], msg)
        self.want_in[i] += msg
        if self.kinds[i] == "echo":
            self.want_out[i] += msg
            self.want_msgs[i].append(msg)

    def output(self, i, msg):
        k = self.kinds[i]
        if k == "term":
            self.ends[i].out += msg
        elif k in ("fwd", "web"):
            self.ends[i].server_send(msg)
        else:
            return
        self.want_out[i] += msg

    def control(self, i, size):
        self.sv.control(self.nos[i], {"type": "window_resize", "size": list(size)})
        if self.kinds[i] == "term":
            self.size[i] = (size[1], size[0])

    def verify(self):
        env, sv = self.env, self.sv
        env.check(sv.drained(), "messages left unhandled")
        for i, k in enumerate(self.kinds):
            n = self.nos[i]
            got = sv.data(n)
            env.check(got == self.want_out[i], "channel %d (%s) sent %r, not %r", n, k, got[:200], self.want_out[i][:200])
            if k == "echo":
                msgs = [s.fields[1] for s in sv.of("request_send") if s.fields[0] == n]
                env.check(msgs == self.want_msgs[i], "channel %d: messages %r, not %r", n, msgs, self.want_msgs[i])
            elif k == "term":
                inp = bytes(self.ends[i].inp)
                env.check(inp == self.want_in[i], "terminal on %d got %r, not %r", n, inp[:200], self.want_in[i][:200])
                env.check(self.ends[i].size == self.size[i], "terminal on %d has size %r, not %r", n,
                          self.ends[i].size, self.size[i])
            elif k in ("fwd", "web"):
                inp = bytes(self.ends[i].to_server)
                env.check(inp == self.want_in[i], "connection on %d got %r, not %r", n, inp[:200], self.want_in[i][:200])
        known = set(self.nos)
        for s in sv.sent:
            if s.type == agent.P["request_send"]:
                env.check(s.fields[0] in known, "data sent on channel %r nobody opened", s.fields[0])
        env.check(not sv.of("request_close"), "channels closed: %r", sv.of("request_close"))


CONFIGS = [
    (("echo", "echo", "term"), (1, 1 + 2 ** 16, 1 + 2 ** 32)),
    (("term", "term", "fwd"), (7, 263, 7 + 2 ** 64)),
    (("fwd", "fwd", "echo"), (0, 2 ** 32 - 1, -1)),
    (("web", "web", "term"), (10, 9, 8)),
]


def histories(ex):
    """All sequences of routed data, controls and service output over three channels."""
    depth = ex.params
    kinds, nos = ex.pick(CONFIGS, label="configuration")
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        env.up()
        r = Rig(env, kinds, nos)
        r.open()
        env.settle()
        r.bind()
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = [("data", 0), ("data", 1), ("data", 2), ("ctl", 2), ("ctl", 0), ("end", 0)]
            menu += [("out", i) for i in range(3) if kinds[i] != "echo"]
            what, i = ex.pick(menu, label="event")
            msg = b"%d.%d;" % (i, step)
            if what == "end":
                break
            ex.note(what, i)
            if what == "data":
                r.data(i, msg)
            elif what == "out":
                r.output(i, msg.upper() + b"!")
            else:
                r.control(i, (30 + step, 100 + i))
            # either let it all happen, or pile the next event on top
            if ex.choose(2, label="pile"):
                continue
            env.settle()
        env.settle()
        r.verify()

    env.run(main)


SIZES = [0, 1, 2, 100, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20]


def sizes(ex):
    """Messages of every size, through every kind of service, among others."""
    n = ex.pick(SIZES, label="size")
    kind = ex.pick(["echo", "term", "fwd", "web"], label="kind")
    env = agent.Env(ex, preempt=False, horizon=4000000)

    def main():
        env.start_agent()
        env.up()
        r = Rig(env, (kind, "echo", "term"), (4, 5, 6))
        r.open()
        env.settle()
        r.bind()
        big = bytes(bytearray((j * 7 + j // 251) & 255 for j in range(4099))) * (n // 4099 + 1)
        for rep in range(2):
            r.data(0, b"<%d" % rep)
            r.data(1, b"x")
            r.data(0, big[:n])
            r.data(2, b"ls\n")
            r.data(0, b">")
            r.output(0, b"(" + big[:n] + b")")
            env.settle()
        ex.note(n, kind)
        r.verify()

    env.run(main)


def many(ex):
    """A lot of channels at the same time, each with its own data."""
    n = ex.params
    order = ex.pick(["up", "down", "stride"], label="order")
    kind = ex.pick(["echo", "fwd", "term", "mixed"], label="kind")
    env = agent.Env(ex, horizon=4000000, preempt=False)

    def main():
        env.start_agent()
        env.up()
        k = n if kind == "echo" else 18
        kinds = [("echo", "fwd", "term")[i % 3] if kind == "mixed" else kind for i in range(k)]
        nos = {"up": range(1, k + 1), "down": range(5000, 5000 - k, -1), "stride": range(0, 256 * k, 256)}[order]
        r = Rig(env, kinds, list(nos))
        r.open()
        env.settle()
        r.bind()
        for rep in range(3):
            for i in range(k):
                r.data(i, b"%d:%d " % (i, rep))
                r.output(i, b"out%d:%d " % (i, rep))
        env.settle()
        for i in reversed(range(k)):
            r.data(i, b"last%d" % i)
        env.settle()
        ex.note(k, order, kind)
        r.verify()

    env.run(main)


def schedules(ex):
    """Traffic in both directions over three services at once, under every schedule."""
    kinds = ex.params
    env = agent.Env(ex, points=SHARED)

    def main():
        env.start_agent()
        env.server.connect()
        env.server.packet("welcome")
        r = Rig(env, kinds, (4, 5, 6))
        env.s.preempt = False
        r.open()
        env.settle()
        env.s.preempt = True
        r.bind()
        for rep in range(2):
            for i in range(len(kinds)):
                r.data(i, b"%d.%d;" % (i, rep))
                r.output(i, b"%d:%d|" % (i, rep))
        env.settle()
        ex.note("done")
        r.verify()

    env.run(main)


def opening(ex):
    """The services open while data for them and others already arrives."""
    kinds = ex.params
    env = agent.Env(ex, points=SHARED)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        env.s.preempt = True
        r = Rig(env, kinds, (4, 5))
        r.open()
        for i in (1, 0, 1, 0):
            r.data(i, b"%d-early;" % i)
        env.settle()
        r.bind()
        r.verify()
        ex.note("done")

    env.run(main)


def replaced(ex):
    """A number is given to another service: what is routed to it from then on is for that one."""
    kinds = ("echo", "term", "fwd")
    a = ex.pick(kinds, label="first")
    b = ex.pick(kinds, label="second")
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        env.up()
        r = Rig(env, (a, b, "echo"), (5, 5, 6))
        r.open()
        env.settle()
        r.bind()
        for step in range(3):
            r.sv.route(5, b"n%d;" % step)
            r.data(2, b"other%d" % step)
            # (only a terminal can be resized)
            r.control(1, [40 + step, 90 + step])
            if step:
                env.settle()
        env.settle()
        for i, k in ((0, a), (1, b)):
            if k == "term":
                env.check(r.ends[i].size == r.size[i], "the %s terminal has size %r, not %r", ("first", "second")[i], r.ends[i].size, r.size[i])
        msgs = b"n0;n1;n2;"
        for i, k in ((0, a), (1, b)):
            if k != "echo":
                got = bytes(r.ends[i].inp if k == "term" else r.ends[i].to_server)
                env.check(got == (msgs if i else b""), "the %s service got %r", ("first", "second")[i], got)
        got = r.sv.data(5)
        env.check(got == (msgs if b == "echo" else b""), "the channel sent %r", got)
        env.check(r.sv.data(6) == r.want_out[2], "the other channel sent %r", r.sv.data(6))
        ex.note(a, b)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("histories", histories, 0, 4 if deep else 3, about="all event sequences over 3 channels, 4 service mixes"),
        Family("cycles", histories, 0, core.Cycled(3, 30) if deep else core.Cycled(2, 30), about="the same few events, over and over"),
        Family("sizes", sizes, 0, about="message sizes around every boundary"),
        Family("replaced", replaced, 0, about="a number given to another service"),
        Family("many", many, 0, 700, about="up to 700 channels at once"),
        Family("sched-fft", schedules, 2 if deep else 1, ("fwd", "fwd", "term"), about="2 forwards and a terminal"),
        Family("sched-wte", schedules, 2 if deep else 1, ("web", "term", "echo"), about="forward, terminal and echo"),
        Family("opening-ft", opening, 2 if deep else 1, ("fwd", "term"), about="data during opening"),
        Family("opening-ww", opening, 2 if deep else 1, ("web", "fwd"), about="data during opening"),
    ]
