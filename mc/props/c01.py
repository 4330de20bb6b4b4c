"""C01: no message from the server wedges the agent."""
import itertools

from .. import agent, core
from ..agent import benc, P
from ..main import Family

ALPHABET = [b"l", b"d", b"i", b"e", b"0", b"1", b"7", b":", b"-", b"\xff"]


class Malformed(Exception):
    pass


def _value(d, i, depth=0):
    c = d[i:i + 1]
    if c == b"i":
        j = d.find(b"e", i)
        t = d[i + 1:j]
        if j < 0 or not t.lstrip(b"-").isdigit() or t.count(b"-") > 1:
            raise Malformed()
        return int(t), j + 1
    if c in (b"l", b"d"):
        out = []
        i += 1
        while True:
            if d[i:i + 1] == b"e":
                i += 1
                break
            v, i = _value(d, i, depth + 1)
            out.append(v)
        if c == b"l":
            return out, i
        if len(out) % 2 or not all(isinstance(k, (bytes, int)) for k in out[::2]):
            raise Malformed()
        return dict(zip(out[::2], out[1::2])), i
    j = d.find(b":", i)
    t = d[i:j]
    if j < 0 or not t.isdigit() or j + 1 + int(t) > len(d):
        raise Malformed()
    return d[j + 1:j + 1 + int(t)], j + 1 + int(t)


def reading(msg):
    """What the message says: a lenient reading of it (leading zeros, key order and what
    follows the value do not matter). Raises Malformed if it says nothing."""
    return _value(msg, 0)[0]


def valid_packet(msg):
    """Does the message hold a packet with all of its fields, of the right kinds?"""
    from .c02 import FORMATS
    try:
        v = reading(msg)
    except Malformed:
        return False
    if not isinstance(v, list) or not v or not isinstance(v[0], int):
        return False
    for name, fields in FORMATS.items():
        if P[name] == v[0]:
            return len(v) - 1 >= len(fields) and all(isinstance(x, t) for x, (_, t) in zip(v[1:], fields))
    return False


def _probe(env, msg):
    """Deliver one message; the agent must get over it and answer the ping that follows."""
    env.fresh()
    env.server.raw(msg)
    env.server.packet("ping", b"p")
    env.s.settle()
    sent = env.server.sent
    seen = env.s.log[env.seen:] if hasattr(env, "seen") else []
    env.seen = len(env.s.log)
    env.acts = seen
    pongs = [s for s in sent if s.type == P["pong"]]
    if not pongs or pongs[-1].fields != [b"p"] or env.server.inbox:
        raise core.Violation("after the message %r the agent no longer answers pings (sent %r)" % (
            msg, [s.raw for s in sent]))
    other = [s for s in sent if s.type != P["pong"]]
    del sent[:]
    return other, len(pongs)


def strings(ex):
    """All strings of a length over the structural alphabet, as messages."""
    length, lead, wrap = ex.params
    first = ex.pick(list(itertools.product(ALPHABET, repeat=lead)), label="prefix")
    env = agent.Env(ex)

    def main():
        env.start_agent()
        env.up()
        del env.server.sent[:]
        for rest in itertools.product(ALPHABET, repeat=length - lead):
            msg = b"".join(first) + b"".join(rest)
            if wrap:
                msg = b"l" + msg
            other, pongs = _probe(env, msg)
            ex.note(msg, len(other), pongs)
            # the shortest message that asks for an answer is longer than these
            env.check(not other and pongs == 1, "the agent answered %r to the malformed message %r", other, msg)

    env.run(main)


# valid packets of every kind the server may send, as field lists
VALID = [
    ["null"], ["welcome"], ["log", b"text"], ["route", 4, b"data"], ["ping", b"x"],
    ["set_identity", b"node-2"], ["notify_open", 4], ["notify_close", 4],
    ["notify_login_success", b"user"], ["notify_login_fail", b"no"], ["keep_alive"],
    ["route_control", 4, b'{"type": "window_resize", "size": [1, 2]}'],
    ["response", 3, {b"a": b"b"}],
    ["instruction", b"s", {b"action": b"none"}],
    ["instruction", b"s", {b"action": b"open-echo", b"port": 4}],
    ["open_remote_file", b"id", b"path"], ["close_remote_file", b"id"],
    ["read_remote_file", b"id", 0, 4],
    ["write_remote_file", b"id", b"path", b"", 0, b"data", 0],
    ["scan_remote_directory"],
]
BAD_VALUES = [0, -1, 10 ** 20, b"", b"\xff\xfe", b"x" * 40, [], [1], {}, {b"k": b"v"}, {b"action": 1}]


def _pkt(p):
    return [P[p[0]]] + list(p[1:])


def mangled(ex):
    """Prefixes, byte edits, wrong arity and wrong field types of every valid packet."""
    p = ex.pick(VALID, label="packet")
    kind = ex.pick(["prefix", "edit", "arity", "type", "number"], label="mutation")
    env = agent.Env(ex)
    fields = _pkt(p)
    good = benc(fields)
    msgs = []
    if kind == "prefix":
        msgs = [good[:i] for i in range(len(good))] + [good + b"e", good + good, good + b"l"]
    elif kind == "edit":
        for i in range(len(good)):
            for c in (b"e", b"l", b"d", b"i", b"9", b":", b"\0", b"-", b" ", b"+", b"_", b"x"):
                if good[i:i + 1] != c:
                    msgs.append(good[:i] + c + good[i + 1:])
            msgs.append(good[:i] + good[i + 1:])
            for c in (b"+", b" ", b"_", b"-", b"\n", b"\0", b"e", b":"):
                msgs.append(good[:i] + c + good[i:])
    elif kind == "arity":
        msgs = [benc(fields[:n]) for n in range(len(fields))]
        msgs += [benc(fields + [v]) for v in BAD_VALUES]
        msgs += [benc(fields + [0] * n) for n in (2, 9, 33, 70, 1000)]
        msgs += [benc(f) for f in (fields[0], b"text", {b"a": 1}, [fields], [[fields[0]]])]
    elif kind == "type":
        for i in range(len(fields)):
            for v in BAD_VALUES:
                msgs.append(benc(fields[:i] + [v] + fields[i + 1:]))
    else:
        for n in list(range(-2, 140)) + [2 ** 31, 2 ** 70, -2 ** 70]:
            msgs.append(benc([n] + fields[1:]))

    def main():
        env.start_agent()
        env.up()
        env.server.instruct(action=b"open-echo", port=4)
        env.settle()
        del env.server.sent[:]
        for m in msgs:
            other, pongs = _probe(env, m)
            ex.note(m, len(other), pongs)
            if not valid_packet(m):
                env.check(not other and pongs == 1, "a malformed message %r was acted upon: %r", m, other)
                acts = [o for o in env.acts if o[0] != "sent"]
                env.check(not acts, "a malformed message %r was acted upon: %r", m, acts)
                _echoes(env, m)
            else:
                env.server.instruct(action=b"open-echo", port=4)
                env.settle()
                del env.server.sent[:]

    env.run(main)


def _echoes(env, m):
    """The echo service on channel 4 is as it was."""
    env.server.route(4, b"mark")
    env.settle()
    got = [(o.type, o.fields) for o in env.server.sent]
    env.check(got == [(P["request_send"], [4, b"mark"])], "a malformed message %r was acted upon: the echo is now %r", m, got)
    del env.server.sent[:]
    env.seen = len(env.s.log)


def others(ex):
    """Messages that are well-formed values but no lists, with bytes or keys that look like those of a packet."""
    part = ex.choose(8, label="part")
    env = agent.Env(ex)

    def main():
        env.start_agent()
        env.up()
        env.server.instruct(action=b"open-echo", port=4)
        env.settle()
        del env.server.sent[:]
        for n in range(part, 256, 8):
            vals = [bytes(bytearray([n] + body)) for body in ([], [4], [4, 5], [4, 97, 98], [0], [1, 4])]
            vals += [n, [[n, 4]], {b"%d" % n: 4}, {b"type": n, b"channel": 4}, [b"%d" % n, 4], [bytes(bytearray([n])), 4], [{}, n, 4], []]
            for v in vals:
                m = benc(v)
                other, pongs = _probe(env, m)
                ex.note(m, len(other), pongs)
                acts = [o for o in env.acts if o[0] != "sent"]
                env.check(not other and pongs == 1 and not acts, "a malformed message %r was acted upon: %r", m, other or acts)
                _echoes(env, m)

    env.run(main)


ACTIONS = {
    b"sync": {}, b"open-terminal": {b"port": 4, b"name": b"shell", b"size": [80, 24]},
    b"open-echo": {b"port": 4}, b"open-portforward": {b"service": b"web", b"route": [b"a", 1, b"b", 4]},
    b"open-portredirect": {b"device_port": 22, b"m2m_port": 4},
    b"read-file": {b"port": 4, b"path": b"/nonexistent/file"},
    b"run-command": {b"port": 4, b"command": b"true"}, b"scan-directory": {}, b"reboot-device": {},
    b"unheard-of": {b"port": 4},
}
VALUES = [None, 0, -1, 2 ** 40, b"", b"\xff", b"nonexistent", [], [1, 2, 3], [b"a"], {b"k": 1}]


def instructions(ex):
    """Every instruction with every argument missing or of any kind: isolated from what follows."""
    a = ex.pick(sorted(ACTIONS), label="action")
    env = agent.Env(ex)

    def main():
        env.start_agent()
        env.up()
        del env.server.sent[:]
        args = ACTIONS[a]
        variants = [args]
        for k in args:
            for v in VALUES:
                d = dict(args)
                if v is None:
                    del d[k]
                else:
                    d[k] = v
                variants.append(d)
        bad_actions = [{}, {b"action": 5}, {b"action": [a]}, {b"\xff": b"x", b"action": a}, {b"action": b"\xff" + a}]
        for d in [dict(v, action=None) for v in variants] + bad_actions:
            if "action" in d:
                del d["action"]
                d[b"action"] = a
            other, pongs = _probe(env, benc([P["instruction"], b"s", d]))
            ex.note(d, pongs, len(other))
            env.check(pongs == 1, "%d pongs", pongs)

    env.run(main)


NEST = [1, 2, 50, 400, 3000, 100000]


def nesting(ex):
    """Deeply nested and very large messages."""
    depth = ex.pick(NEST, label="depth")
    o = ex.pick([b"l", b"d1:a", b"ld1:al"], label="opener")
    closed = ex.choose(2, label="closed")
    env = agent.Env(ex, horizon=3000000)

    def main():
        env.start_agent()
        env.up()
        del env.server.sent[:]
        msg = o * depth
        if closed:
            msg += b"1:x" + b"e" * (depth * o.count(b"l") + depth * o.count(b"d"))
        other, pongs = _probe(env, msg)
        ex.note(depth, closed, len(other))
        env.check(not other and pongs == 1, "answered %r", other)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("mangled", mangled, 0, about="prefixes, byte edits, arity, field types and packet numbers of %d "
               "valid packets" % len(VALID)),
        Family("others", others, 0, about="values that are no packets"),
        Family("instructions", instructions, 0, about="every instruction, every argument missing or ill-typed"),
        Family("nesting", nesting, 0, about="nesting depth up to 100000"),
        Family("strings3", strings, 0, (3, 1, False), about="all 3-symbol messages"),
        Family("list-strings4", strings, 0, (4, 2, True), about="all messages l + 4 symbols"),
        Family("strings5" if not deep else "strings6", strings, 0, (6, 3, False) if deep else (5, 2, False),
               about="all messages of that many symbols over 10 structural symbols"),
    ] + ([Family("list-strings6", strings, 0, (6, 3, True), about="all messages l + 6 symbols")] if deep else [])
