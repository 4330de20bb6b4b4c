"""C34: a connection on which the server no longer answers is given up; one on which it answers is kept (real websocket library)."""
import signal

from .. import agent, boot, kit
from ..main import Family
from ..wsserver import WsServer
from ..agent import P

# no answer for this long: 100 s as documented, the ping before, the granularity of the loop
GIVE_UP = 100 + 30 + 40
# the back-off and the connection
AGAIN = 60


class Far(object):
    """The server's end of one connection after the other; it answers pings as told."""

    def __init__(self, env):
        from dataplicity.m2m import wsclient
        self.env = env
        wsclient.WebSocket = boot.RealWebSocket
        self.conns = []
        self.local = kit.Local(env)
        self.shells = kit.Shells(env)
        env.w.listeners[("127.0.0.1", 9000)] = self.conns.append
        env.start_agent(m2m_url="ws://127.0.0.1:9000/m2m/")
        env.settle()
        self.ws = None
        self.taken = 0
        self.join()

    def join(self):
        """The newest connection is taken up."""
        env = self.env
        env.check(len(self.conns) == self.taken + 1, "%d connections, not %d", len(self.conns), self.taken + 1)
        self.taken += 1
        self.ws = WsServer(env, self.conns[-1], True)
        self.ws.handshake()
        self.seen = 0
        env.settle()
        self.ws.parse()
        env.check(self.ws.messages == [[P["request_join"]]], "after connecting: %r", self.ws.messages)
        del self.ws.messages[:]
        self.ws.packet("set_identity", b"node-%d" % self.taken)
        env.settle()

    def pings(self):
        """Payloads of the pings of the agent that have not been answered."""
        self.ws.parse(final=False)
        p = [d for op, d in self.ws.controls if op == 9]
        new, self.seen = p[self.seen:], len(p)
        return new

    @property
    def up(self):
        return len(self.conns) == self.taken and not self.ws.conn.server_sees_eof

    def live(self, seconds, lag=0, step=5, talk=0):
        """For a while the server answers each ping after `lag` seconds, and may send something now and then."""
        env = self.env
        begun = env.s.now
        todo, k = [], 0
        while env.s.now < begun + seconds - 1e-6:
            env.fresh()
            env.settle(min(step, begun + seconds - env.s.now))
            env.check(self.up, "a connection on which the server answered was given up after %d s", env.s.now - begun)
            todo += [(env.s.now + lag, p) for p in self.pings()]
            while todo and todo[0][0] <= env.s.now:
                self.ws.frame(10, todo.pop(0)[1])
            k += 1
            if talk and k % talk == 0:
                self.ws.packet("null")
        for _, p in todo:
            self.ws.frame(10, p)
        env.settle()

    def wait(self, seconds, until, step=5):
        env = self.env
        end = env.s.now + seconds
        while not until() and env.s.now < end - 1e-6:
            env.fresh()
            env.settle(step)

    def works(self, data):
        """A message is answered."""
        self.ws.parse()
        del self.ws.messages[:]
        self.ws.packet("ping", data)
        self.env.settle()
        self.ws.parse()
        self.env.check([P["pong"], data] in self.ws.messages, "a ping is not answered: %r", self.ws.messages)

    def instruct(self, **d):
        self.ws.packet("instruction", b"s", d)


def use(far, what):
    """Something is open on the connection when the server falls silent."""
    if what in ("terminal", "busy"):
        far.instruct(action=b"open-terminal", port=5, name=b"shell")
    if what in ("forward", "busy"):
        far.instruct(action=b"open-portforward", service=b"web", route=[b"a", 1, b"b", 4])
    far.env.settle()


def mute(ex):
    """The server falls silent at some moment of the life of a connection, and again on the next one."""
    cycles, before, lags, uses = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=cycles * 1000 + 2000)

    def main():
        far = Far(env)
        for i in range(cycles):
            far.live(ex.pick(before, label="seconds"), ex.pick(lags, label="lag"))
            what = ex.pick(uses, label="in use")
            output = ex.pick([False, True], label="goes on sending") if what != "nothing" else False
            procs, conns = len(far.shells.procs), len(far.local.conns)
            use(far, what)
            far.works(b"before")
            old, t0 = far.ws.conn, env.s.now

            def rest():
                if output and env.s.now - t0 < 60:
                    for p in far.shells.ptys[procs:]:
                        if p.slave_open:
                            p.out += b"text\r\n"
                    for c in far.local.conns[conns:]:
                        if not c.server_sees_eof:
                            c.server_send(b"more")
                return old.server_sees_eof
            far.wait(GIVE_UP, rest)
            env.check(old.server_sees_eof, "the server has been silent for %d s and the connection is still kept", env.s.now - t0)
            far.wait(AGAIN, lambda: len(far.conns) > far.taken)
            env.check(len(far.conns) == far.taken + 1, "given up %d s ago: %d new connections", AGAIN, len(far.conns) - far.taken)
            for p in far.shells.procs[procs:]:
                env.check(signal.SIGHUP in [s for _, s in p.signals], "a terminal of the connection that was given up is still open")
            for c in far.local.conns[conns:]:
                env.check(c.server_sees_eof, "a forwarded connection of the connection that was given up is still open")
            far.join()
            far.works(b"after %d" % i)
            ex.note(what, output)
        far.live(60)
        far.works(b"at last")

    env.run(main)


def answered(ex):
    """The server answers pings: the connection is kept, for as long as one likes."""
    seconds, lags, talks, steps = ex.params
    lag = ex.pick(lags, label="lag")
    talk = ex.pick(talks, label="talk")
    step = ex.pick(steps, label="granularity")
    env = agent.Env(ex, preempt=False, time_horizon=seconds + 1000)

    def main():
        far = Far(env)
        far.live(seconds, lag, step, talk)
        env.check(far.up and len(far.conns) == 1, "given up")
        far.works(b"at last")
        ex.note(lag, talk, step)

    env.run(main)


def gaps(ex):
    """Shorter silences, again and again: the connection is kept."""
    n, sizes = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=n * 400 + 1000)

    def main():
        far = Far(env)
        for i in range(n):
            far.live(ex.pick([31, 95], label="answers"))
            t = env.s.now
            gap = ex.pick(sizes, label="silence")
            far.wait(gap, lambda: False)
            env.check(far.up, "given up after a silence of %d s", env.s.now - t)
            for p in far.pings()[-1:] if ex.pick([False, True], label="only the last") else far.pings():
                far.ws.frame(10, p)
            env.settle()
            far.works(b"gap %d" % i)
        far.live(100)
        far.works(b"at last")
        ex.note("kept")

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    before = [0, 5, 29, 31, 64, 95, 131, 250] if deep else [0, 31, 95, 250]
    return [
        Family("mute", mute, 0, (2, before, [0, 20], ["nothing", "terminal", "forward", "busy"]) if deep else
               (1, before, [0, 20], ["nothing", "terminal", "forward", "busy"]), about="the server falls silent"),
        Family("mute-again", mute, 0, (4 if deep else 3, [0, 64], [0], ["nothing", "busy"] if deep else ["nothing"]), about="again and again"),
        Family("answered", answered, 0, (9000 if deep else 2400, [0, 5, 20], [0, 1, 7], [1, 5, 13] if deep else [5, 13]), about="the server answers"),
        Family("gaps", gaps, 0, (4 if deep else 3, [20, 60]), about="short silences"),
    ]
