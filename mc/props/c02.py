"""C02: packets survive the wire: what one end encodes, the other end decodes, field for field."""
import itertools

from .. import agent, core
from ..agent import benc, bdec, P
from ..main import Family

INTS = [0, 1, -1, 9, 10, -10, 127, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 63, 10 ** 30, -10 ** 30]
BYTES = [b"", b"a", b"0", b":", b"e", b"i1e", b"le", b"\x00", b"\xff\xfe\x80", b"5:hello", b"x" * 9, b"y" * 10,
         b"z" * 100, bytes(range(256)), b"\n", b"-1"]
LEAVES = [0, -7, 123, b"", b"ab", b"e", b"1:", b"\xff"]


def _same(a, b):
    return type(a) is type(b) and a == b if not isinstance(a, (list, tuple, dict)) else _same_c(a, b)


def _same_c(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, list) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return isinstance(b, dict) and set(a) == set(b) and all(_same(a[k], b[k]) for k in a)


def _values(depth, leaves):
    """Every structure: lists and dicts of up to two elements, up to a depth."""
    if depth == 0:
        return list(leaves)
    sub = _values(depth - 1, leaves)
    small = sub if depth == 1 else sub[:: max(1, len(sub) // 40)]
    out = list(leaves) + [[], {}]
    out += [[a] for a in sub]
    out += [[a, b] for a in small for b in small]
    out += [{k: a} for k in (b"k", b"") for a in sub]
    out += [{b"b": a, b"a": b} for a in small for b in small]
    out += [{b"b": a, b"aa": 1, b"": 2} for a in small]
    return out


def structures(ex):
    """encode is the documented encoding, decode its inverse, for every small structure."""
    from dataplicity.m2m import bencode
    depth = ex.params
    vals = _values(depth, LEAVES)
    n = 40
    part = ex.choose(n, label="part")
    for v in vals[part::n]:
        want = benc(v)
        got = bencode.encode(v)
        if got != want:
            raise core.Violation("%r is encoded as %r, not %r" % (v, got, want))
        back = bencode.decode(want)
        if not _same(v, back):
            raise core.Violation("%r decodes to %r, not %r" % (want, back, v))
        ex.note(want)
    for v in BYTES + INTS if part == 0 else ():
        if bencode.encode(v) != benc(v) or not _same(bencode.decode(benc(v)), v):
            raise core.Violation("%r does not survive" % (v,))
        if isinstance(v, bytes):
            for u in (u"", u"plain", u"\xe9\u20ac", u"\U0001f600 x"):
                if bencode.encode([u, v]) != benc([u, v]):
                    raise core.Violation("text %r is encoded as %r" % (u, bencode.encode([u, v])))
        ex.note(v)


def rejects(ex):
    """What cannot be represented is refused, not sent as something else."""
    from dataplicity.m2m import bencode
    bad = [1.5, None, object(), [None], {"text": 1}, {1: 2}, [[1.0]], {b"k": None}, set(), lambda: 0]
    v = bad[ex.choose(len(bad), label="value")]
    try:
        out = bencode.encode(v)
    except Exception:
        ex.note("refused", type(v).__name__)
        return
    raise core.Violation("%r was encoded as %r" % (v, out))


def no_packets(ex):
    """Values that are not lists, or do not start with a packet number, are no packets."""
    from dataplicity.m2m.packets import M2MPacket
    n = ex.choose(256, label="number")
    for v in (bytes(bytearray([n, 4])), bytes(bytearray([n])), {}, {b"0": n}, n, [], [[n, 4]], [b"%d" % n, 4], [{b"k": n}], [-1 - n]):
        try:
            p = M2MPacket.from_bytes(benc(v))
        except Exception:
            continue
        raise core.Violation("%r was taken for %r" % (v, p))
    ex.note(n)


ALPHABET = [b"l", b"d", b"i", b"e", b"0", b"1", b"2", b":", b"-", b"x"]
# (what int() takes)
NUMBERS = [b"i", b"e", b"1", b"2", b":", b"-", b"+", b" ", b"_", b"\n"]


def readings(ex):
    """Every short string is decoded to what it says, or refused if it says nothing."""
    from dataplicity.m2m import bencode
    from .c01 import Malformed, reading
    n, lead, alphabet = ex.params
    first = b"".join(ex.pick(list(itertools.product(alphabet, repeat=lead)), label="prefix"))
    s = ex.new_sched(horizon=20000)
    count = [0, 0]
    for k in range(n - lead + 1):
        for rest in itertools.product(alphabet, repeat=k):
            w = first + b"".join(rest)
            out = []

            def body():
                try:
                    out.append(bencode.decode(w))
                except Exception:
                    pass
            s.spawn(body, "decode")
            s.steps = 0
            s.run()
            got = [v for v in out if v is not None]  # ("e" alone is no value)
            try:
                want = [reading(w)]
            except Malformed:
                want = []
            if len(got) != len(want) or not all(_same(a, b) for a, b in zip(want, got)):
                raise core.Violation("%r is decoded as %r, not as %r" % (w, got, want))
            count[bool(want)] += 1
    ex.note(first, count)


def truncation(ex):
    """No proper prefix of an encoding decodes to a value of its own (containers) or hangs."""
    from dataplicity.m2m import bencode
    vals = [v for v in _values(1, LEAVES) if isinstance(v, (list, dict))]
    n = 16
    part = ex.choose(n, label="part")
    s = ex.new_sched(horizon=20000)
    for v in vals[part::n]:
        w = benc(v)
        for i in range(len(w)):
            out = []

            def body(d=w[:i]):
                try:
                    out.append(bencode.decode(d))
                except Exception:
                    pass
            s.spawn(body, "decode")
            s.steps = 0
            s.run()
            if out:
                raise core.Violation("the truncated encoding %r decodes to %r" % (w[:i], out[0]))
            ex.note(w[:i])


# What the protocol says each packet looks like: name -> field kinds
FORMATS = {
    "null": [], "request_join": [], "request_identify": [("uuid", bytes)], "welcome": [],
    "log": [("text", bytes)], "request_send": [("channel", int), ("data", bytes)],
    "route": [("channel", int), ("data", bytes)], "ping": [("data", bytes)], "pong": [("data", bytes)],
    "set_identity": [("uuid", bytes)], "notify_open": [("channel", int)], "request_close": [("port", int)],
    "notify_close": [("port", int)], "keep_alive": [], "request_login": [("username", bytes), ("password", bytes)],
    "notify_login_success": [("user", bytes)], "notify_login_fail": [("message", bytes)],
    "instruction": [("sender", bytes), ("data", dict)], "response": [("command_id", int), ("result", dict)],
    "request_send_control": [("channel", int), ("data", bytes)],
    "route_control": [("channel", int), ("data", bytes)],
    "open_remote_file": [("upload_id", bytes), ("path", bytes)],
    "open_remote_file_result": [("upload_id", bytes), ("size", int), ("fail", int), ("fail_reason", bytes)],
    "close_remote_file": [("upload_id", bytes)],
    "read_remote_file": [("upload_id", bytes), ("offset", int), ("size", int)],
    "read_remote_file_result": [("upload_id", bytes), ("offset", int), ("size", int), ("data", bytes),
                                ("fail", int), ("fail_reason", bytes)],
    "scan_remote_directory": [], "scan_remote_directory_result": [("error", bytes)],
    "write_remote_file": [("id", bytes), ("path", bytes), ("device_path", bytes), ("offset", int),
                          ("data", bytes), ("final", int)],
    "write_remote_file_result": [("id", bytes), ("position", int), ("chunk_size", int), ("device_path", bytes),
                                 ("fail", int), ("fail_reason", bytes)],
    "request_leave": [],
    "command_add_route": [("command_id", int), ("node1", bytes), ("port1", int), ("node2", bytes), ("port2", int),
                          ("requester", bytes), ("forwarded", int)],
    "command_send_instruction": [("command_id", int), ("node", bytes), ("data", dict)],
    "command_log": [("command_id", int), ("node", bytes), ("text", bytes)],
    "command_broadcast_log": [("command_id", int), ("text", bytes)],
    "command_set_name": [("command_id", int), ("node", bytes), ("name", bytes)],
    "command_check_nodes": [("command_id", int), ("nodes", list)],
    "command_get_identities": [("command_id", int), ("nodes", list)],
    "command_set_auth": [("command_id", int), ("expire", int), ("value", bytes)],
    "command_set_meta": [("command_id", int), ("requester", bytes), ("node", bytes), ("key", bytes), ("value", bytes)],
    "command_get_meta": [("command_id", int), ("requester", bytes), ("node", bytes)],
    "peer_add_route": [("command_id", int), ("requester", bytes), ("node1", bytes), ("port1", int), ("node2", bytes),
                       ("port2", int)],
    "peer_forward": [("recipient", bytes), ("packet", bytes)],
    "peer_notify_disconnect": [("node", bytes)],
    "peer_notify_name": [("node", bytes), ("name", bytes)],
    "peer_close_port": [("node", bytes), ("port", int)],
}
TEXTS = [u"", u" a \n", u"\xe9\u20ac", u"\U0001f600", u"l" * 300, u"\0"]
DOMAIN = {
    bytes: [b"", b"v", b"\xff\x00e:", b" \n"],
    int: [0, 1, -1, 10 ** 12],
    list: [[], [b"n1"], [b"n1", b"\xff", 3, [b"x"]]],
    dict: [{}, {b"k": b"v"}, {b"n": 1, b"l": [1, b"x"], b"d": {b"a": 2}}],
}
WRONG = {list: [b"", 1, {}], bytes: [0, [], {}], int: [b"1", [], {}], dict: [b"", 0, [b"k", b"v"]]}


def packets(ex):
    """Every packet, every combination of field values: the wire form and back; wrong kinds are refused."""
    from dataplicity.m2m.packets import M2MPacket, PacketType
    name = ex.pick(sorted(FORMATS), label="packet")
    fields = FORMATS[name]
    number = P[name]
    try:
        kind = PacketType[name]
    except KeyError:
        raise core.Violation("there is no packet %s" % name)
    if int(kind) != number:
        raise core.Violation("%s has the number %d, not %d" % (name, int(kind), number))
    for combo in itertools.product(*[DOMAIN[t] for _, t in fields]):
        kw = {n: v for (n, _), v in zip(fields, combo)}
        want = benc([number] + list(combo))
        for how in ("positional", "named"):
            p = (M2MPacket.create(kind, *combo) if how == "positional"
                 else M2MPacket.create(kind, **kw))
            if p.encode_binary() != want:
                raise core.Violation("%s%r (%s) goes out as %r, not %r" % (name, combo, how, p.encode_binary(), want))
        back = M2MPacket.from_bytes(want)
        if int(back.type) != number or any(not _same(v, getattr(back, n)) for n, v in kw.items()):
            raise core.Violation("%r comes in as %r" % (want, back))
        ex.note(want)
    # text is sent as UTF-8; large values
    for i, (n, t) in enumerate(fields):
        if t is not bytes:
            continue
        huge = [b"\x00" * n for n in (1 << 22, (1 << 24) + 1, 1 << 26)] if name in ("route", "request_send") else []
        for v in TEXTS + [b"\xfe" * 65537, b"big" * 1000000] + huge:
            args = [DOMAIN[t2][1] for _, t2 in fields]
            args[i] = v
            kw = {n2: a for (n2, _), a in zip(fields, args)}
            args2 = list(args)
            args2[i] = v if isinstance(v, bytes) else v.encode("utf-8")
            want = benc([number] + args2)
            for p in (M2MPacket.create(kind, *args), M2MPacket.create(kind, **kw)):
                if p.encode_binary() != want:
                    raise core.Violation("%s with %s=%.50r goes out as %.100r" % (name, n, v, p.encode_binary()))
            back = M2MPacket.from_bytes(want)
            if getattr(back, n) != args2[i]:
                raise core.Violation("%.100r comes in as %r" % (want, back))
            ex.note(name, n, v[:40], len(v))
    for i, (n, t) in enumerate(fields):
        for w in WRONG[t]:
            args = [DOMAIN[t2][1] for _, t2 in fields]
            args[i] = w
            for make in (lambda: M2MPacket.create(kind, *args),
                         lambda: M2MPacket.from_bytes(benc([number] + args))):
                try:
                    p = make()
                except Exception:
                    ex.note("refused", name, n, type(w).__name__)
                    continue
                raise core.Violation("%s with a %s for %s was accepted: %r" % (name, type(w).__name__, n, p))


def dispatch(ex):
    """Every packet the server sends reaches its handler with exactly its fields, through the session."""
    name = ex.pick(["ping", "route", "instruction", "write_remote_file", "read_remote_file", "set_identity"],
                   label="packet")
    env = agent.Env(ex)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        if name == "ping":
            for d in BYTES:
                env.fresh()
                env.ping(d)
                ex.note(d)
        elif name == "route":
            sv.instruct(action=b"open-echo", port=3)
            got = b""
            for d in BYTES:
                env.fresh()
                sv.route(3, d)
                env.settle()
                got += d
                env.check(sv.data(3) == got, "echo: %r", sv.data(3))
                ex.note(d)
        elif name == "set_identity":
            for d in (b"n1", b"node-2", b"0"):
                sv.packet("set_identity", d)
                env.settle()
                last = env.api.requests[-1][-1]
                env.check(last["method"] == "m2m.associate" and last["params"] == {"identity": d.decode()},
                          "identity %r was registered as %r", d, last)
                ex.note(d)
        elif name == "instruction":
            for action in (b"open-echo", u"open-echo".encode()):
                for port in (0, 1, 70000):
                    sv.instruct(action=action, port=port, extra=[1, {b"x": b"y"}])
                    sv.route(port, b"mark%d" % port)
                    env.settle()
                    env.check(sv.data(port).startswith(b"mark%d" % port), "port %d: %r", port, sv.data(port))
                    ex.note(action, port)
        elif name == "read_remote_file":
            for off, size in itertools.product((0, 1, 2 ** 40), (0, 5)):
                sv.packet("read_remote_file", b"no-such-upload", off, size)
                env.settle()
                r = sv.of("read_remote_file_result")[-1].fields
                env.check(r[:5] == [b"no-such-upload", off, size, b"", 1], "%r", r)
                ex.note(off, size)
        else:
            for off in (0, 7):
                sv.packet("write_remote_file", b"dl", b"p", b"/no/such/place", off, b"datadata", 0)
                env.settle()
                r = sv.of("write_remote_file_result")[-1].fields
                env.check(r[:3] == [b"dl", off, 8] and r[4] != 0, "%r", r)
                ex.note(off, r[4])

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("packets", packets, 0, about="%d packet kinds, all field value combinations" % len(FORMATS)),
        Family("structures", structures, 0, 3 if deep else 2, about="all nested values up to that depth"),
        Family("rejects", rejects, 0, about="values with no encoding"),
        Family("no-packets", no_packets, 0, about="values that are no packets"),
        Family("truncation", truncation, 0, about="all proper prefixes of small containers"),
        Family("readings", readings, 0, (6, 3, ALPHABET) if deep else (5, 2, ALPHABET), about="every short string"),
        Family("numbers", readings, 0, (6, 3, NUMBERS) if deep else (5, 2, NUMBERS), about="every short string of what may look like a number"),
        Family("dispatch", dispatch, 0, about="fields reach the behaviour they drive"),
    ]
