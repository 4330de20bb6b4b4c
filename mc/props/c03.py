"""C03: every connection is joined once; the assigned identity is registered until acknowledged, once."""
import urllib.error

from .. import agent, core
from ..main import Family

EVENTS = ["poll", "identity-A", "identity-B", "drop", "connect", "other", "bye"]
# names that are nearly the same
IDENT = {"A": b"7f3e09d2-5c7a-4f0e-8ccb-9ee8f5a1b7c4", "B": b"7f3e09d2-5c7a-4f0e-8ccb-9ee8f5a1b7c5",
         "C": b"6f3e09d2-5c7a-4f0e-8ccb-9ee8f5a1b7c4"}
API = ["ok", "unreachable", "auth-error", "associate-error", "garbage", "partial"]


def api_answer(kind, calls):
    if kind == "ok":
        return "ok"
    if kind == "unreachable":
        return urllib.error.URLError("down")
    if kind == "garbage":
        return b"<html>502</html>"
    out = []
    for c in calls:
        if (kind == "auth-error" and c["method"] == "device.check_auth") or (
                kind == "associate-error" and c["method"] == "m2m.associate"):
            out.append({"jsonrpc": "2.0", "id": c["id"], "error": {"code": 7, "message": "no"}})
        elif kind == "partial" and c["method"] == "m2m.associate":
            continue
        else:
            out.append({"jsonrpc": "2.0", "id": c["id"], "result": True})
    return out


def session(ex):
    depth, apis = ex.params[:2]
    waits = ex.params[2:]
    env = agent.Env(ex)
    # the reference: what the server side knows
    state = {"up": False, "identity": None, "acked": None, "attempts": []}
    plan = []

    def behave(n, calls):
        kind = plan[0] if plan else "ok"
        return api_answer(kind, calls)

    env.api.behave = behave

    def associates():
        return [[c for c in r if c["method"] == "m2m.associate"] for r in env.api.requests]

    def main():
        env.start_agent()
        sv = env.server
        env.settle()
        env.check(not sv.sent, "sent before connecting: %r", sv.sent)
        joins = 0
        for i in range(ex.cycled(depth)):
            env.fresh()
            menu = ["connect", "connect-fail"] if not state["up"] else EVENTS[:4] + EVENTS[5:]
            ev = ex.pick(menu, label="event")
            api = "ok"
            want = None  # identity that must be registered now
            if ev == "connect":
                sv.connect()
                state["up"] = True
                joins += 1
            elif ev == "connect-fail":
                sv.push("fail")
            elif ev in ("drop", "bye"):
                sv.disconnect("bye" if ev == "bye" else "fail")
                state["up"] = False
                state["identity"] = None
            elif ev == "poll":
                if waits:
                    # nothing was heard of the server since
                    env.settle(ex.pick(waits[0], label="silence"))
                    env.fresh()
                sv.push("poll")
                want = state["identity"]
            elif ev == "other":
                # (channels are open from now on)
                sv.packet("welcome")
                sv.packet("null")
                sv.packet("notify_open", 4)
                sv.instruct(action=b"open-echo", port=4)
            else:
                ident = IDENT[ev[-1]]
                sv.packet("set_identity", ident)
                state["identity"] = want = ident
            if want is not None and want != state["acked"]:
                api = ex.pick(apis, label="api")
            else:
                want = None
            plan[:] = [api]
            before = len(env.api.requests)
            ex.note(ev, api)
            # a failed or lost connection is retried after a back-off of up to 30 s
            env.settle(40 if ev in ("drop", "bye", "connect-fail") else None)
            new = env.api.requests[before:]
            if want is None:
                env.check(not new, "%s: unexpected API requests %r", ev, new)
            else:
                env.check(len(new) == 1, "%s: identity %r must be registered with one request: %r", ev, want, new)
                r = new[0]
                env.check([c["method"] for c in r] == ["device.check_auth", "m2m.associate"], "%r", r)
                env.check(r[0]["params"].get("serial") == "SERIAL" and r[0]["params"].get("auth_token") == "TOKEN"
                          and r[1]["params"] == {"identity": want.decode()}, "%r", r)
                state["acked"] = want if api == "ok" else None
            # what was said to the server: a join at the start of every connection, nothing else
            env.check(len(sv.sent) == joins, "%d connections, sent %r", joins, sv.sent)
            for k, s in enumerate(sv.sent):
                env.check((s.type, s.fields, s.conn) == (1, [], k + 1), "connection %d: sent %r", k + 1, s)
        if not state["up"]:
            sv.connect()
        env.settle()
        sv.packet("ping", b"end")
        env.settle()
        env.check(sv.sent[-1].type == 8, "no longer answering: %r", sv.sent[-1:])

    env.run(main)


def reconnect(ex):
    """However often connecting fails, it is tried again, never more than half a minute later."""
    env = agent.Env(ex)
    if ex.params == "long":
        # the back-off has reached its limit
        kinds = [ex.pick(["fail", "rejected", "drop"], label="outcome")] * ex.pick([8, 40], label="number")
        kinds += [ex.pick(["fail", "rejected", "drop"], label="last")]
    else:
        kinds = [ex.pick(["fail", "rejected", "drop", "bye", "silent"], label="outcome") for _ in range(ex.params)]

    def main():
        env.start_agent()
        sv = env.server
        for k in kinds:
            t0 = env.s.now
            if k in ("drop", "bye", "silent"):
                sv.connect()
                sv.disconnect("fail" if k == "drop" else k)
            else:
                sv.push(k)
            sv.push("call", lambda: None)
            env.s.block(sv.drained, 31.0, "reconnect")
            env.check(sv.drained(), "after %r: no new connection attempt within 31 s", kinds)
            ex.note(k, round(env.s.now - t0, 1))
            env.fresh()
        sv.connect()
        env.settle()
        env.ping()

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("session", session, 0, (6 if deep else 5, API[:4] if deep else ["ok", "unreachable", "associate-error"]),
               about="all event sequences, all API outcomes"),
        Family("api", session, 0, (4, API), about="all API failure kinds, shorter sequences"),
        Family("silence", session, 0, (5 if deep else 4, ["ok", "unreachable"], [None, 70, 600]), about="with long silences of the server"),
        Family("cycles", session, 0, (core.Cycled(3, 30) if deep else core.Cycled(2, 30), API), about="the same few events, over and over"),
        Family("reconnect-long", reconnect, 0, "long", about="many failures in a row"),
        Family("reconnect", reconnect, 0, 6 if deep else 4, about="all sequences of failed connections"),
    ]
