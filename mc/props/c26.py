"""C26: API calls are authenticated and matched to their own answers."""
import itertools
import json
import urllib.error

from .. import agent, core, vos
from ..main import Family

M = "dataplicity."
STD = {-32700: "Parse error", -32600: "Invalid Request", -32601: "Method not found", -32602: "Invalid params", -32603: "Internal error"}

# What a reply may be: (fields beside the id, what the call must come to)
KINDS = {
    "true": ({"result": True}, ("ok", True)),
    "null": ({"result": None}, ("ok", None)),
    "zero": ({"result": 0}, ("ok", 0)),
    "list": ({"result": [1, {"error": 5}]}, ("ok", [1, {"error": 5}])),
    "error": ({"error": {"code": 7, "message": "no", "data": [1]}}, ("error", 7, "no", [1])),
    "bare": ({"error": {"code": 8}}, ("error", 8, None, None)),
    "std": ({"error": {"code": -32601}}, ("error", -32601, "Method not found", None)),
    "both": ({"result": True, "error": {"code": 9, "message": "x"}}, ("error", 9, "x", None)),
    "odd": ({"error": None}, ("fail",)),
    "text": ({"error": "it broke"}, ("fail",)),
    "missing": (None, ("fail",)),
}


def reply(id, kind):
    f = KINDS[kind][0]
    return None if f is None else dict({"jsonrpc": "2.0", "id": id}, **f)


def judge(env, rpc, batch, call_id, method, kind):
    """The call comes to what its reply says."""
    from dataplicity import jsonrpc
    want = KINDS[kind][1]
    try:
        got = ("ok", batch.get_result(call_id))
    except jsonrpc.JSONRPCError as e:
        got = ("error", e.code, e.message, e.data)
        env.check(e.method == method, "the error of %r is said to be of %r", method, e.method)
        if want[0] == "error" and want[2] is None:
            got = got[:2] + (None,) + got[3:]
        if want[0] == "error":
            std = want[1] in STD
            env.check(isinstance(e, jsonrpc.RemoteError) == std, "error %r is a %s", want[1], type(e).__name__)
    except Exception:
        got = ("fail",)
    if want == ("fail",):
        env.check(got[0] != "ok", "%r (%s): %r", method, kind, got)
    else:
        env.check(got == want and type(got[1]) is type(want[1]), "%r (%s): %r, not %r", method, kind, got, want)


def replies(ex):
    """Batches of several calls; all orders of all kinds of replies, with replies nobody asked for."""
    k, kinds, extra = ex.params
    ks = [ex.pick(kinds, label="reply") for _ in range(k)]
    env = agent.Env(ex, preempt=False)
    numbered = ex.pick(["named", "numbered", "mixed"], label="ids")

    def main():
        from dataplicity import jsonrpc
        rpc = jsonrpc.JSONRPC("https://api.test/")
        for perm in itertools.permutations(range(k)):
            for alien in extra:
                env.fresh()
                state = {}

                def behave(n, calls):
                    with_id = [c for c in calls if "id" in c]
                    env.check(len(with_id) == k and len({json.dumps(c["id"]) for c in with_id}) == k, "ids: %r", calls)
                    env.check([c["method"] for c in with_id] == ["m%d" % i for i in range(k)], "order: %r", calls)
                    for c in calls:
                        env.check(c["jsonrpc"] == "2.0" and isinstance(c["params"], dict) and set(c) <= {"jsonrpc", "method", "params", "id"},
                                  "not a JSON-RPC call: %r", c)
                    ids = state["ids"] = [c["id"] for c in with_id]
                    out = [reply(ids[i], ks[i]) for i in perm]
                    out = [o for o in out if o is not None]
                    if alien == "first":
                        out.insert(0, {"jsonrpc": "2.0", "id": "nobody", "result": True})
                    elif alien == "last":
                        out.append({"jsonrpc": "2.0", "id": 10 ** 6, "error": {"code": 1, "message": "stray"}})
                    elif alien == "null id":
                        out.append({"jsonrpc": "2.0", "id": None, "error": {"code": -32600, "message": "stray"}})
                    return out
                env.api.behave = behave
                with rpc.batch() as batch:
                    for i in range(k):
                        if numbered == "named" or (numbered == "mixed" and i % 2):
                            batch.call_with_id("id%d" % i, "m%d" % i, value=i)
                        else:
                            batch.call("m%d" % i, value=i)
                    if numbered == "mixed":
                        batch.notify("note", x=1)
                for i in range(k):
                    judge(env, rpc, batch, state["ids"][i], "m%d" % i, ks[i])
                bad = any(KINDS[x][1][0] != "ok" for x in ks)
                try:
                    batch.check(*state["ids"])
                    ok = True
                except Exception:
                    ok = False
                env.check(ok == (not bad), "check() of %r: %r", ks, ok)
                for other in ("nobody2", 99, None):
                    try:
                        v = batch.get_result(other)
                    except Exception:
                        continue
                    env.fail("a call that was never made has the result %r", v)
        ex.note(ks, numbered)

    env.run(main)


WHOLE = [b"", b" ", b"null", b"true", b"1", b'"x"', b"{}", b"[]", b"[[]]", b"[1]", b"[null]", b'["jsonrpc"]', b"[{}]", b"<html></html>", b"\xff\xfe",
         b'{"jsonrpc":"2.0","id":"A","result":true}', b'{"jsonrpc":"2.0","id":null,"error":{"code":-32700,"message":"p"}}',
         b'[{"jsonrpc":"2.0","id":["A"],"result":true}]', b'[{"jsonrpc":"2.0","id":{"A":1},"result":true}]', b'[{"jsonrpc":"2.0","result":true}]',
         b'[{"jsonrpc":"2.0","error":{"code":1,"message":"x"}}]', b'[{"jsonrpc":"2.0","id":"a","result":true}]',
         b'[{"jsonrpc":"2.0","id":"A ","result":true}]', b'[{"jsonrpc":"2.0","id":"A","result":tru}]', b'[{"jsonrpc":"2.0","id":"A","result":true}',
         b'[{"jsonrpc":"2.0","id":"A","result":true}]]', b'{"A": {"result": true}}', b"[" * 100000]
RAISE = [urllib.error.URLError("down"), ConnectionResetError(104, "reset"), TimeoutError("slow"), ValueError("bad url"), EOFError(),
         urllib.error.HTTPError("https://api.test/", 500, "oops", {}, None)]


def malformed(ex):
    """Answers that are not understood: no call succeeds, and the next batch works."""
    env = agent.Env(ex, preempt=False)
    what = ex.pick(["whole", "raise", "read-error", "prefix"], label="what")

    def main():
        from dataplicity import jsonrpc
        rpc = jsonrpc.JSONRPC("https://api.test/")
        good = b'[{"jsonrpc": "2.0", "id": "A", "result": "done"}, {"jsonrpc": "2.0", "id": "B", "result": true}]'
        if what == "whole":
            menu = WHOLE
        elif what == "raise":
            menu = RAISE
        elif what == "read-error":
            menu = [vos.VResponse(e) for e in RAISE[:5]]
        else:
            menu = [good[:i] for i in range(len(good))]
        for m in menu:
            env.fresh()
            env.api.behave = lambda n, calls: m
            batch = rpc.batch()
            try:
                with batch:
                    batch.call_with_id("A", "a")
                    batch.call_with_id("B", "b")
                r = batch.get_result("A")
            except RecursionError:
                pass
            except Exception:
                pass
            else:
                env.fail("%r: the call succeeded with %r", m, r)
            if isinstance(m, vos.VResponse):
                env.check(m.closed, "the connection was left open")
            resp = vos.VResponse(good)
            env.api.behave = lambda n, calls: resp
            with rpc.batch() as batch:
                batch.call_with_id("A", "a")
                batch.call_with_id("B", "b")
            env.check(batch.get_result("A") == "done" and batch.get_result("B") is True, "the next batch")
            env.check(resp.closed, "the connection was left open")
        ex.note(what, len(menu))

    env.run(main)


def single(ex):
    """Single calls: only the reply with the call's own id, and without an error, is a result."""
    env = agent.Env(ex, preempt=False)

    def main():
        from dataplicity import jsonrpc
        rpc = jsonrpc.JSONRPC("https://api.test/")
        sets = []
        for id in ("own", "other", "text", "own text", None, "absent"):
            for version in ("2.0", "1.0", 2.0, "absent"):
                for kind in KINDS:
                    sets.append((id, version, kind))
        for id, version, kind in sets:
            env.fresh()
            last = {}

            def behave(n, call):
                env.check(isinstance(call, dict) and call["jsonrpc"] == "2.0" and call["method"] == "m" and call["params"] == {"a": 1}, "%r", call)
                last["id"] = call["id"]
                r = dict(KINDS[kind][0] or {})
                if id != "absent":
                    r["id"] = {"own": call["id"], "other": call["id"] + 1, "text": "x", "own text": str(call["id"]), None: None}[id]
                if version != "absent":
                    r["jsonrpc"] = version
                return json.dumps(r).encode()
            env.api.behave = behave
            ok = id == "own" and version == "2.0"
            want = KINDS[kind][1] if ok else ("fail",)
            try:
                got = ("ok", rpc.call("m", a=1))
            except jsonrpc.JSONRPCError as e:
                got = ("error", e.code, e.message if want[0] != "error" or want[2] else None, e.data)
            except Exception:
                got = ("fail",)
            if kind == "missing":
                continue  # a reply without result or error
            env.check((got[0] != "ok") if want == ("fail",) else got == want, "id %r, version %r, %s: %r, not %r", id, version, kind, got, want)
        for m in WHOLE + RAISE + [vos.VResponse(e) for e in RAISE[:5]]:
            env.fresh()
            env.api.behave = lambda n, call: m
            try:
                r = rpc.call("m", a=1)
            except Exception:
                pass
            else:
                env.fail("%r: the call succeeded with %r", m, r)
            if isinstance(m, vos.VResponse):
                env.check(m.closed, "the connection was left open")
        # ids are never used twice
        ids = []
        env.api.behave = lambda n, call: ids.append(call.get("id")) or json.dumps({"jsonrpc": "2.0", "id": call.get("id"), "result": 1}).encode()
        for i in range(50):
            rpc.call("m", a=1)
        env.check(len(set(ids)) == 50, "ids: %r", ids)
        n = len(env.api.requests)
        rpc.notify("hello", x=2)
        env.check(len(env.api.requests) == n + 1 and "id" not in env.api.requests[-1], "a notification: %r", env.api.requests[-1])
        ex.note("done")

    env.run(main)


def not_sent(ex):
    """A batch that is given up, or whose calls could not be made, is not sent."""
    env = agent.Env(ex, preempt=False)

    def main():
        from dataplicity import jsonrpc
        rpc = jsonrpc.JSONRPC("https://api.test/")
        with rpc.batch() as b:
            b.call_with_id("x", "m")
            b.abandon()
        env.check(not env.api.requests, "an abandoned batch was sent")
        try:
            with rpc.batch() as b:
                b.call_with_id("x", "m")
                raise KeyError("while preparing")
        except KeyError:
            pass
        env.check(not env.api.requests, "an interrupted batch was sent")
        try:
            with rpc.batch() as b:
                b.call_with_id("x", "m")
                b.call_with_id("x", "n")
        except ValueError:
            pass
        else:
            env.fail("two calls with one id")
        env.check(not env.api.requests, "sent")
        ex.note("done")

    env.run(main)


WAYS = ["sync", "tags", "disk", "identity"]
AUTH = [("SERIAL", "TOKEN"), ("s e r", u"t\u00f6ken"), ("0", "\"quoted\\"), (u"\U0001f600", "x" * 500)]


def agent_batches(ex):
    """Everything the agent sends: a batch that begins with the device's own credentials, to the configured address."""
    serial, token = ex.pick(AUTH, label="credentials")
    url = ex.pick(["https://api.test/", "http://localhost:8000/json/?a=b"], label="url")
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent(serial=serial, auth_token=token, rpc_url=url)
        env.up()
        env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.settle(130)
        env.server.instruct(action=b"sync")
        env.settle(1)
        seen = set()
        env.check(env.api.requests, "nothing was sent")
        for u, calls in zip(env.api.urls, env.api.requests):
            env.check(u == url, "sent to %r, not %r", u, url)
            env.check(isinstance(calls, list) and len(calls) > 1, "not a batch: %r", calls)
            ids = [json.dumps(c["id"]) for c in calls if "id" in c]
            env.check(len(set(ids)) == len(ids), "ids: %r", ids)
            for c in calls:
                env.check(c["jsonrpc"] == "2.0" and isinstance(c["method"], str) and isinstance(c["params"], dict) and
                          set(c) <= {"jsonrpc", "method", "params", "id"}, "not a JSON-RPC call: %r", c)
            a = calls[0]
            env.check(a["method"] == "device.check_auth" and "id" in a, "the batch begins with %r", a)
            p = dict(a["params"])
            p.pop("sync_id", None)
            env.check(p == {"device_class": "tuxtunnel", "serial": serial, "auth_token": token}, "credentials: %r", p)
            env.check(not any(c["method"] == "device.check_auth" for c in calls[1:]), "credentials twice")
            seen |= {c["method"] for c in calls[1:]}
        env.check({"m2m.associate", "device.set_disk_space", "device.set_machine_defined_tags", "device.set_uname"} <= seen, "sent: %r", seen)
        ex.note(serial, url)

    env.run(main)


def outcomes(ex):
    """What the agent takes for success: all orders of replies, each of them an error or missing."""
    way = ex.pick(WAYS[:2] + WAYS[3:], label="way")
    env = agent.Env(ex, preempt=False)
    plan = {}

    def behave(n, calls):
        names = [c["method"] for c in calls]
        mine = {"sync": "device.set_uname", "tags": "device.set_machine_defined_tags", "identity": "m2m.associate"}[way]
        if mine not in names:
            return "ok"
        plan["sent"] = plan.get("sent", 0) + 1
        if plan.get("kind") is None:
            return "ok"
        kinds = plan["kind"]
        out = [reply(c["id"], kinds.get(i, "true")) for i, c in enumerate(calls)]
        out = [o for o in out if o is not None]
        r = plan["turn"] % max(1, len(out))
        out = out[r:] + out[:r]
        if plan["turn"] >= len(out):
            out.reverse()
        return out
    env.api.behave = behave

    def main():
        size = {"sync": 7, "tags": 2, "identity": 2}[way]
        target = ex.choose(size + 1, label="call")
        kind = ex.pick(["error", "std", "missing", "odd"], label="kind") if target < size else "true"
        if way == "tags" and target == 0:
            return  # whether credentials were refused shows in the call itself
        for turn in range(size * 2):
            env2 = env
            env.fresh()
            plan.clear()
            plan.update(kind={target: kind} if target < size else {}, turn=turn)
            from dataplicity.client import Client
            c = env.start_agent()

            def act():
                if way == "sync":
                    c.sync()
                elif way == "tags":
                    c.tag_poll()
                else:
                    return c.set_m2m_identity(b"node-9")
            r = act()
            env.check(plan["sent"] == 1, "sent %r times", plan["sent"])
            ok = target == size
            if way == "identity":
                env.check((r == b"node-9") == ok and (ok or r is None), "%s of reply %d: %r", kind, target, r)
            else:
                plan["kind"] = None
                act()
                env.check(plan["sent"] == (1 if ok else 2), "%s of reply %d (turn %d): taken for %s", kind, target, turn,
                          "success" if plan["sent"] == 1 else "failure")
        ex.note(way, target, kind)

    env.run(main)


def many(ex):
    """Large batches, and many one after another: answers in every rotation and in reverse."""
    k = ex.pick([1, 2, 10, 11, 33, 100, 101, 300], label="calls")
    rounds = ex.pick([1, 40], label="batches") if k <= 11 else 2
    turn = ex.pick(["asked", "reverse", "half"], label="order")
    failing = ex.pick([None, 0, k // 2, k - 1], label="failing")
    numbered = ex.pick([False, True], label="numbered")
    env = agent.Env(ex, preempt=False)

    def main():
        from dataplicity import jsonrpc
        rpc = jsonrpc.JSONRPC("https://api.test/")
        state = {}

        def behave(n, calls):
            env.check(len({json.dumps(c["id"]) for c in calls}) == len(calls) == k, "ids: %r", [c["id"] for c in calls])
            state["ids"] = [c["id"] for c in calls]
            out = [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": 5, "message": "no %s" % c["method"]}} if i == failing else
                   {"jsonrpc": "2.0", "id": c["id"], "result": [c["method"], c["params"]]} for i, c in enumerate(calls)]
            return out[::-1] if turn == "reverse" else out[k // 2:] + out[:k // 2] if turn == "half" else out
        env.api.behave = behave
        for j in range(rounds):
            env.fresh()
            with rpc.batch() as batch:
                for i in range(k):
                    if numbered:
                        batch.call("m%d" % i, value=i + j)
                    else:
                        batch.call_with_id("id%d.%d" % (i, j), "m%d" % i, value=i + j)
            for i, id in enumerate(state["ids"]):
                try:
                    got = batch.get_result(id)
                except jsonrpc.JSONRPCError as e:
                    got = (e.code, e.method)
                want = (5, "m%d" % i) if i == failing else ["m%d" % i, {"value": i + j}]
                env.check(got == want, "call %d of %d, batch %d: %r, not %r", i, k, j, got, want)
        ex.note(k, rounds, turn, failing, numbered)

    env.run(main)


def concurrent(ex):
    """Two threads with batches and calls of their own on one client, statement by statement: each gets its own answers."""
    kinds = ex.params
    env = agent.Env(ex, points=(M + "jsonrpc",))

    def main():
        from dataplicity import jsonrpc
        rpc = jsonrpc.JSONRPC("https://api.test/")
        done = {}

        def behave(n, calls):
            calls = calls if isinstance(calls, list) else [calls]
            env.check(len({json.dumps(c["id"]) for c in calls}) == len(calls), "ids: %r", calls)
            return [{"jsonrpc": "2.0", "id": c["id"], "result": [c["method"], c["params"]]} for c in calls[::-1]]
        env.api.behave = behave

        def user(who, kind):
            k = 3 if kind == "batch" else 2
            with rpc.batch() as batch:
                for i in range(k):
                    if kind == "batch":
                        batch.call("m%d" % i, who=who)
                    else:
                        batch.call_with_id("id%d" % i, "m%d" % i, who=who)
            done[who] = [batch.get_result(c["id"]) for c in batch.calls]
        for who, kind in enumerate(kinds):
            env.s.spawn(lambda who=who, kind=kind: user(who, kind), "user%d" % who, kind="agent")
        env.settle(1)
        for who, kind in enumerate(kinds):
            k = 3 if kind == "batch" else 2
            want = [["m%d" % i, {"who": who}] for i in range(k)]
            env.check(done.get(who) == want, "user %d got %r, not %r (%r)", who, done.get(who), want, env.s.thread_errors)
        ex.note(kinds)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    every = sorted(KINDS)
    return [
        Family("replies-2", replies, 0, (2, every, ["", "first", "last", "null id"]), about="all replies to two calls"),
        Family("concurrent", concurrent, 3 if deep else 2, ("batch", "batch"), about="two threads with numbered batches"),
        Family("concurrent-named", concurrent, 3 if deep else 2, ("named", "named"), about="two threads with named batches"),
        Family("many", many, 0, about="large batches"),
        Family("replies-3", replies, 0, (3, every if deep else ["true", "null", "error", "std", "missing"], [""]), about="all replies to three calls"),
        Family("malformed", malformed, 0, about="answers that are not understood"),
        Family("single", single, 0, about="single calls"),
        Family("not-sent", not_sent, 0, about="batches given up"),
        Family("agent", agent_batches, 0, about="everything the agent sends"),
        Family("outcomes", outcomes, 0, about="what the agent takes for success"),
    ]
