"""C35: a web API that never answers does not stop the agent."""
from .. import agent, core, vos
from ..main import Family
from .c27 import Node

NEVER = {"no-connect": lambda: vos.NoAnswer(connects=False), "no-answer": vos.NoAnswer, "half": lambda: vos.NoAnswer(b'[{"jsonrpc": "2.0", "id"')}
# what one request after another may take, all in all
PATIENCE = 600
STEPS = ("disk", "tags", "sync", "identity")


class Slow(Node):
    """Some steps of the agent never get an answer."""

    def __init__(self, env):
        Node.__init__(self, env)
        self.dead = {}
        self.api_says = lambda step: NEVER[self.dead[step]]() if step in self.dead else "ok"
        self.set("changing")

    def since(self, n, step):
        return [s for _, s in self.tried[n:] if s == step]


def outages(ex):
    """Any step gets no answer, of any kind, for a while; then it does again."""
    depth, kinds = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        node = Slow(env)
        env.start_agent()
        t = env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.server.connect()
        for i in range(depth):
            env.fresh()
            step = ex.pick(STEPS if i == 0 else STEPS + ("all",), label="step")
            kind = ex.pick(kinds, label="kind")
            ev = ex.pick(["none", "identity", "sync", "terminal-free"] if i else ["none", "identity"], label="event")
            node.dead = {s: kind for s in (STEPS if step == "all" else (step,))}
            n = len(node.tried)
            if ev == "identity":
                env.server.packet("set_identity", b"node-%d" % i)
            elif ev == "sync":
                env.server.instruct(action=b"sync")
            elif ev == "terminal-free":
                env.server.instruct(action=b"open-echo", port=4)
                env.server.route(4, b"e%d" % i)
            env.settle(PATIENCE)
            env.check(not t.done, "the agent has ended: %r", env.s.thread_errors[:1])
            env.check(env.server.drained(), "%s without an answer (%s): the session is held up for %d s", step, kind, PATIENCE)
            env.ping()
            # the steps that get answers go on
            for s in ("tags",):
                env.check(node.since(n, s), "%s without an answer (%s): no %s for %d s", step, kind, s, PATIENCE)
            ex.note(i, step, kind, ev, [s for _, s in node.tried[n:]])
        node.dead = {}
        n = len(node.tried)
        env.fresh()
        env.server.packet("set_identity", b"at last")
        env.settle(PATIENCE)
        env.check(node.since(n, "identity") == ["identity"] and node.since(n, "tags"), "with answers again: %r", node.tried[n:])
        env.ping()
        ex.note("end")

    env.run(main)


def ending(ex):
    """Asked to end while a request gets no answer: it ends all the same."""
    step = ex.pick(STEPS[:3], label="step")
    kind = ex.pick(sorted(NEVER), label="kind")
    when = ex.pick([0, 1, 29, 31, 61, 65, 100], label="moment")
    env = agent.Env(ex, preempt=False)

    def main():
        node = Slow(env)
        node.dead = {step: kind}
        env.start_agent()
        t = env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.up()
        env.settle(when or None)
        env.client.exit()
        env.settle(PATIENCE)
        env.check(t.done, "asked to end at %d s, it still runs after %d s (%s: %s)", when, PATIENCE, step, kind)
        ex.note(step, kind, when)

    env.run(main)


def starting(ex):
    """There are no answers from the very start, and then there are; the session is not held up."""
    dead = [s for s in STEPS if ex.choose(2, label=s)]
    kind = ex.pick(sorted(NEVER), label="kind")
    first = ex.pick([0, 45, PATIENCE], label="connected after")
    env = agent.Env(ex, preempt=False)

    def main():
        node = Slow(env)
        node.dead = {s: kind for s in dead}
        env.start_agent()
        t = env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.settle(first or None)
        env.server.connect()
        env.server.packet("set_identity", b"node-1")
        env.fresh()
        env.settle(PATIENCE)
        env.check(not t.done, "the agent has ended: %r", env.s.thread_errors[:1])
        env.check(env.server.drained(), "the session is held up for %d s", PATIENCE)
        env.ping()
        for s in ("tags", "identity"):
            env.check(node.since(0, s), "no %s for %d s", s, PATIENCE)
        node.dead = {}
        n = len(node.tried)
        env.fresh()
        env.server.packet("set_identity", b"node-2")
        env.settle(PATIENCE)
        env.check(node.since(n, "identity") == ["identity"] and node.since(n, "tags"), "with answers again: %r", node.tried[n:])
        env.ping()
        ex.note(dead, kind, first)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    few = ["no-answer", "half"]
    return [
        Family("outages", outages, 0, (3, sorted(NEVER)) if deep else (2, sorted(NEVER)), about="steps without an answer"),
        Family("outages-long", outages, 0, (4, few[:1]) if deep else (3, few[:1]), about="one after the other"),
        Family("starting", starting, 0, about="no answers from the start"),
        Family("ending", ending, 0, about="ending while there is no answer"),
    ]
