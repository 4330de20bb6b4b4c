"""C24: device details are sent until they are accepted, and then no more."""
import importlib
import urllib.error

from .. import agent, core, vfs
from ..main import Family

M = "dataplicity."
META = ["device.set_agent_version", "device.set_machine_revision", "device.set_model_name", "device.set_os_version", "device.set_uname",
        "device.set_ip_addresses"]
OTHER = {"device.set_disk_space", "device.set_machine_defined_tags", "m2m.associate"}


def is_sync(calls):
    return isinstance(calls, list) and not any(c["method"] in OTHER for c in calls)


def reply(c, **kw):
    return dict({"jsonrpc": "2.0", "id": c["id"]}, **kw)


def answer(kind, calls):
    """Outcome of a sync request: (answer, accepted?)."""
    if kind == "ok":
        return "ok", True
    if kind == "reversed":
        return [reply(c, result=None) for c in reversed(calls)], True
    if kind == "unreachable":
        return urllib.error.URLError("down"), False
    if kind == "reset":
        return ConnectionResetError(104, "Connection reset by peer"), False
    if kind == "html":
        return b"<html>502 Bad Gateway</html>", False
    if kind == "binary":
        return b"\xff\xfe\x00", False
    if kind == "empty":
        return b"", False
    if kind == "none":
        return [], False
    if kind == "object":
        return b'{"jsonrpc": "2.0", "id": null, "error": {"code": -32700, "message": "?"}}', False
    if kind == "null":
        return b"null", False
    out = []
    what, _, which = kind.partition(" ")
    for c in calls:
        hit = c["method"].endswith("." + which) or which == "all"
        if not hit:
            out.append(reply(c, result=True))
        elif what == "error":
            out.append(reply(c, error={"code": 7, "message": "no"}))
        elif what == "internal":
            out.append(reply(c, error={"code": -32603}))
    return out, False


NAMES = ["check_auth"] + [m.split(".")[1] for m in META]
FULL = (["ok", "reversed", "unreachable", "reset", "html", "binary", "empty", "none", "object", "null", "error all", "internal all"] +
        ["error " + n for n in NAMES] + ["missing " + n for n in NAMES] + ["internal check_auth", "internal set_uname"])
FEW = ["ok", "unreachable", "error check_auth", "error set_ip_addresses", "missing set_agent_version", "html"]
FEWER = ["ok", "unreachable", "error set_ip_addresses"]


class Api(object):
    """Answers sync requests as told; knows when the details have been accepted."""

    def __init__(self, env, kinds):
        self.env = env
        self.kinds = kinds
        self.accepted = False
        self.syncs = []
        env.api.behave = self.behave
        from dataplicity import device_meta
        self.env.s.fs = fs = vfs.Fs(env)
        fs.virtual = {"/proc/cpuinfo": b"Revision : a0b1\n", "/proc/device-tree/model": b"A Model"}

    def behave(self, n, calls):
        if not is_sync(calls):
            return "ok"
        env = self.env
        env.check(not self.accepted, "the details were sent again: %r", [c["method"] for c in calls])
        a = calls[0]
        env.check(a["method"] == "device.check_auth" and a["params"].get("serial") == "SERIAL" and a["params"].get("auth_token") == "TOKEN",
                  "not authenticated: %r", a)
        got = {c["method"]: c["params"] for c in calls[1:]}
        env.check(sorted(got) == sorted(META) and len(calls) == 7, "the details sent: %r", sorted(got))
        env.check(got["device.set_machine_revision"] == {"revision_code": "a0b1"} and
                  got["device.set_model_name"] == {"model_name": "A Model"}, "the details sent: %r", got)
        kind = self.kinds(n)
        self.syncs.append(kind)
        r, acc = answer(kind, calls)
        self.accepted = acc
        env.ex.note(kind)
        return r


def fresh_meta():
    """The details are gathered anew (they may be kept in the module)."""
    import dataplicity.device_meta as m
    importlib.reload(m)


def histories(ex):
    """Every sequence of polls, server-requested syncs and API outcomes."""
    depth, menu = ex.params
    env = agent.Env(ex, preempt=False)
    fresh_meta()
    api = Api(env, lambda n: ex.pick(menu, label="outcome"))

    def main():
        env.start_agent()
        env.up()
        env.check(not api.syncs, "details were sent before the first poll")
        for i in range(ex.cycled(depth)):
            env.fresh()
            done = api.accepted
            n = len(api.syncs)
            ev = ex.pick(["poll", "sync", "reconnect"] if menu is not FULL else ["poll", "sync"], label="event")
            ex.note(ev)
            if ev == "poll":
                env.s.spawn(env.client.poll, "poll", kind="agent")
                env.settle(1)
            elif ev == "sync":
                env.server.instruct(action=b"sync")
                env.settle(1)
            else:
                env.server.disconnect()
                env.settle(40)
                env.up()
            k = len(api.syncs) - n
            if ev != "reconnect":
                env.check(k == (0 if done else 1), "%s: the details were sent %d times (accepted before: %r)", ev, k, done)
            if done and ex.period is None:
                return
        if ex.period is not None and not api.accepted:
            # however often it failed, it is tried again
            api.kinds = lambda n: "ok"
            n = len(api.syncs)
            env.fresh()
            env.s.spawn(env.client.poll, "poll", kind="agent")
            env.settle(1)
            env.check(api.accepted and len(api.syncs) == n + 1, "after %d failures the details were sent %d times", n, len(api.syncs) - n)
            env.s.spawn(env.client.poll, "poll", kind="agent")
            env.settle(1)
        env.ping()

    env.run(main)


def start(ex):
    """The running agent: details are sent on start and at every poll until accepted."""
    fails = ex.choose(4, label="failures")
    env = agent.Env(ex, preempt=False)
    fresh_meta()
    kinds = [ex.pick(FEW[1:], label="outcome") for _ in range(fails)] + ["ok"] * 20
    api = Api(env, lambda n: kinds[len(api.syncs)])

    def main():
        env.start_agent()
        t0 = env.s.now
        env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.settle(1)
        env.check(len(api.syncs) == 1, "on start the details were sent %d times", len(api.syncs))
        for i in range(6):
            env.settle(60)
            want = min(i + 2, fails + 1)
            env.check(len(api.syncs) == want, "after %d minutes the details were sent %d times, not %d", i + 1, len(api.syncs), want)
        env.check(api.accepted, "never accepted")

    env.run(main)


def gather(ex):
    """Details that can not be gathered at first are sent later."""
    fails = ex.choose(3, label="failures")
    env = agent.Env(ex, preempt=False)
    fresh_meta()
    import dataplicity.device_meta as dm
    import platform
    real = platform.uname
    left = [fails]
    accepted = []

    def uname():
        if left[0]:
            left[0] -= 1
            raise RuntimeError("not now")
        return real()

    def behave(n, calls):
        if is_sync(calls):
            env.check(not accepted, "sent again")
            if sorted(c["method"] for c in calls[1:]) == sorted(META):
                accepted.append(n)
        return "ok"
    env.api.behave = behave

    def main():
        env.start_agent()
        env.up()
        # (the agent says its system's name as it starts)
        platform.uname = uname
        try:
            for i in range(fails + 2):
                if ex.choose(2, label="event"):
                    env.server.instruct(action=b"sync")
                else:
                    env.s.spawn(env.client.poll, "poll", kind="agent")
                env.settle(1)
        finally:
            platform.uname = real
        env.check(len(accepted) == 1, "the details were not sent")
        ex.note(fails)

    try:
        env.run(main)
    finally:
        platform.uname = real


def overlap(ex):
    """Polls and server-requested syncs at the same time, statement by statement."""
    actors, kinds = ex.params
    env = agent.Env(ex, points=(M + "client",))
    fresh_meta()
    answered = []

    def main():
        env.s.preempt = False
        api = Api(env, lambda n: kinds[min(len(api.syncs), len(kinds) - 1)])
        inner = api.behave

        def behave(n, calls):
            if not is_sync(calls):
                return "ok"
            env.s.point("api request")
            r = inner(n, calls)
            acc = api.accepted
            api.accepted = any(answered)
            env.s.point("api reply")
            if acc:
                answered.append(1)
                api.accepted = True
            return r
        env.api.behave = behave
        env.start_agent()
        env.up()
        env.s.preempt = True
        done = []

        def poll():
            env.client.poll()
            done.append("poll")
        for a in actors:
            if a == "poll":
                env.s.spawn(poll, "poll", kind="agent")
            else:
                env.server.instruct(action=b"sync")
        env.settle(1)
        env.s.preempt = False
        env.settle(1)
        env.check(len(done) == actors.count("poll"), "a poll has not ended")
        n = len(api.syncs)
        # sent by each of them until accepted
        first_ok = kinds.index("ok") + 1 if "ok" in kinds else len(kinds) + 1
        env.check(n >= min(len(actors), first_ok), "%r: the details were sent %d times, outcomes %r", actors, n, api.syncs)
        env.server.instruct(action=b"sync")
        env.settle(1)
        env.check(len(api.syncs) == n + (0 if answered else 1), "the next sync: %d to %d", n, len(api.syncs))
        env.ping()
        ex.note(n)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    p, s = "poll", "sync"
    out = [
        Family("outcomes", histories, 0, (2 if not deep else 3, FULL), about="every outcome of every call"),
        Family("histories", histories, 0, (4 if not deep else 5, FEW if deep else FEWER), about="longer histories"),
        Family("cycles", histories, 0, (core.Cycled(3, 30) if deep else core.Cycled(2, 30), FULL), about="the same few events, over and over"),
        Family("start", start, 0, about="the running agent"),
        Family("gather", gather, 0, about="details that can not be gathered at first"),
        Family("overlap-ok", overlap, b, ((p, s), ["ok"]), about="a poll and a sync"),
        Family("overlap-fail", overlap, b, ((p, s), ["unreachable", "ok"]), about="a poll and a sync, the first fails"),
        Family("overlap-polls", overlap, b, ((p, p), ["error set_uname", "ok"]), about="two polls"),
    ]
    if deep:
        out.append(Family("overlap-3", overlap, 2, ((p, s, p), ["unreachable", "ok"]), about="three"))
        out.append(Family("overlap-3f", overlap, 2, ((p, s, s), ["unreachable", "html", "ok"]), about="three"))
    return out
