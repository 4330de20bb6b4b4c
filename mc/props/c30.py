"""C30: command responses are delivered exactly once."""
from .. import agent, core, kit
from ..main import Family

M = "dataplicity."


class Table(object):
    """The reference: outstanding callbacks, and what each has been called with."""

    def __init__(self, env):
        self.env = env
        self.ws = env.client.m2m.m2m_client
        self.calls = []  # of each callback: the values it was called with
        self.ids = []
        self.want = []  # of each callback: what it must have been called with by now

    def add(self, id, how="ok", then=None):
        n = len(self.calls)
        self.calls.append([])
        self.ids.append(id)
        self.want.append([])

        def callback(value):
            self.calls[n].append(value)
            core.S.point("callback")
            self.env.check(len(self.calls[n]) == 1, "callback %d (for %r) was called with %r", n, id, self.calls[n])
            if then is not None:
                then()
            if how == "raise":
                raise RuntimeError("callback failed")
        self.ws.add_callback(id, callback)
        return n

    def open(self, id=None):
        return [n for n in range(len(self.calls)) if not self.want[n] and (id is None or self.ids[n] == id)]

    def verify(self, what):
        env = self.env
        for n, (got, want) in enumerate(zip(self.calls, self.want)):
            env.check(got == want, "%s: callback %d (for %r) was called with %r, not %r", what, n, self.ids[n], got, want)


def histories(ex):
    """All sequences of registrations, responses and lost connections."""
    depth, menu = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        sv = env.server
        env.up()
        t = Table(env)
        up = True
        k = 0
        for i in range(ex.cycled(depth)):
            env.fresh()
            ev = ex.pick(menu if up else [m for m in menu if not m.startswith("response")], label="event")
            ex.note(ev)
            what, _, arg = ev.partition(" ")
            id = {"a": 7, "b": 8, "x": 99, "1": 0}.get(arg)
            if what == "add":
                t.add(id)
            elif what == "add-raise":
                t.add(id, "raise")
            elif what == "add-again":
                # a callback that asks for the next response of the same command
                t.add(id, then=lambda id=id: t.add(id))
            elif what == "add-other":
                t.add(id, then=lambda: t.add(8))
            elif what == "response":
                k += 1
                value = {b"result": k}
                hit = t.open(id)
                for n in hit:
                    t.want[n] = [value]
                sv.packet("response", id, value)
                env.settle()
            elif what == "drop":
                if up:
                    for n in t.open():
                        t.want[n] = [None]
                    sv.disconnect(agent.ENDS[k % 3])
                    env.settle(40)
                    up = False
            elif what == "up":
                if not up:
                    env.up()
                    up = True
            t.verify("%d: %s" % (i, ev))
        if not up:
            env.up()
        env.ping()
        # those still outstanding are told when the connection is lost; what they register then waits for the next one
        for n in t.open():
            t.want[n] = [None]
        sv.disconnect()
        env.settle(40)
        t.verify("at the end")
        for i in range(2):
            env.up()
            t.verify("connected again")
            for n in t.open():
                t.want[n] = [None]
            sv.disconnect()
            env.settle(40)
            t.verify("lost again")

    env.run(main)


def schedules(ex):
    """Registrations by several threads while responses arrive and the connection is lost, statement by statement."""
    adders, events = ex.params
    env = agent.Env(ex, points=(M + "m2m.wsclient",))

    def main():
        env.s.preempt = False
        env.start_agent()
        sv = env.server
        env.up()
        t = Table(env)
        old = t.add(7)
        kit.open_echo(sv, 3)
        env.settle()
        env.s.preempt = True

        def adder(id):
            def run():
                t.add(id)
            return run
        for id in adders:
            env.s.spawn(adder(id), "caller", kind="agent")
        for e in events:
            if e == "drop":
                sv.disconnect()
            else:
                sv.packet("response", e, {b"to": e})
        env.settle(40)
        env.s.preempt = False
        if "drop" in events:
            env.up()
        for got, id in zip(t.calls, t.ids):
            env.check(got in ([], [None], [{b"to": id}]), "a callback for %r was called with %r", id, got)
            if "drop" not in events:
                env.check(got in ([], [{b"to": id}]), "a callback for %r was called with %r though nothing was lost", id, got)
        first = [e for e in events if e in ("drop", 7)]
        if first:
            env.check(t.calls[old] == ([None] if first[0] == "drop" else [{b"to": 7}]), "the first callback was called with %r", t.calls[old])
        # nothing is outstanding after the connection is lost
        sv.disconnect()
        env.settle(40)
        for n, got in enumerate(t.calls):
            env.check(len(got) == 1, "callback %d (for %r) was called with %r", n, t.ids[n], got)
        env.check(not env.s.thread_errors, "a thread failed: %r", env.s.thread_errors[:1])
        env.up()
        env.ping()
        ex.note([c for c in t.calls])

    env.run(main)


MENU = ["add a", "add-raise a", "add b", "response a", "response b", "response x", "drop", "up"]
MENU2 = ["add a", "add-again a", "add-other a", "response a", "response b", "drop", "up"]
MENU3 = ["add 1", "add a", "add-raise 1", "response 1", "response a", "drop", "up"]


def shared(ex):
    """One function waits for the responses of several commands: it gets each of them, or nothing for each that is lost."""
    depth = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        sv = env.server
        env.up()
        ws = env.client.m2m.m2m_client
        calls, want, waiting = [], [], []
        same = calls.append
        for i in range(depth):
            env.fresh()
            ev = ex.pick(["wait 7", "wait 8", "response 7", "response 8", "drop"], label="event")
            ex.note(ev)
            id = int(ev.split()[1]) if " " in ev else None
            if ev.startswith("wait"):
                if id not in waiting:
                    ws.add_callback(id, same)
                    waiting.append(id)
            elif ev.startswith("response"):
                sv.packet("response", id, {b"n": i})
                env.settle()
                if id in waiting:
                    waiting.remove(id)
                    want.append({b"n": i})
            else:
                sv.disconnect()
                want += [None] * len(waiting)
                del waiting[:]
                env.settle(40)
                env.up()
            env.check(calls == want, "called with %r, not %r", calls, want)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    a, b = 7, 8
    k = 3 if deep else 2
    return [
        Family("histories", histories, 0, (5 if deep else 4, MENU), about="registrations, responses, losses"),
        Family("cycles", histories, 0, (core.Cycled(4, 30) if deep else core.Cycled(3, 30), MENU), about="the same few events, over and over"),
        Family("registering", histories, 0, (5 if deep else 4, MENU2), about="callbacks that register callbacks"),
        Family("shared", shared, 0, 6 if deep else 5, about="one function for several commands"),
        Family("response", schedules, k, ((a, b), (a,)), about="registrations during a response"),
        Family("same", schedules, k, ((a, a), (a, a)), about="registrations for one command"),
        Family("drop", schedules, k, ((a, b), ("drop",)), about="registrations during a loss"),
        Family("both", schedules, k, ((a,), (a, "drop")), about="a response and a loss"),
    ]
