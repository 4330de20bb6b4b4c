"""C07: buffered channel reads lose, repeat and reorder nothing."""
from .. import agent, core
from ..main import Family

POINTS = ("dataplicity.m2m.wsclient",)


def blob(start, n):
    return bytes(bytearray((start + j) & 255 for j in range(n)))


SIZES_IN = [0, 1, 2, 5]
SIZES_OUT = [0, 1, 2, 4, 100]


def histories(ex):
    """Every sequence of arrivals and reads; a byte string is the reference."""
    depth = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        ch = env.client.m2m.m2m_client.get_channel(3)
        other = env.client.m2m.m2m_client.get_channel(4)
        held = b""
        total = 0
        sv.route(4, b"other")
        env.settle()
        for step in range(depth):
            kind, n = ex.pick([("in", n) for n in SIZES_IN] + [("read", n) for n in SIZES_OUT] +
                              [("wait", n) for n in SIZES_OUT[1:]], label="event")
            ex.note(kind, n)
            if kind == "in":
                sv.route(3, blob(total, n))
                held += blob(total, n)
                total += n
                env.settle()
            elif kind == "wait" and not held:
                # nothing to read: an empty answer after the timeout (or at once, for an empty message)
                t = env.s.now
                got = ch.read(n, timeout=3.0, block=True)
                env.check(got == b"", "read %r of nothing", got)
                env.check(env.s.now - t <= 3.5, "waited %r s instead of 3", env.s.now - t)
            else:
                t = env.s.now
                got = ch.read(n, timeout=3.0, block=True) if kind == "wait" else ch.read(n)
                env.check(got == held[:n], "read(%d) gave %r with %r waiting", n, got, held)
                env.check(env.s.now == t, "a read of data that is there took %r s", env.s.now - t)
                held = held[n:]
            env.check(ch.size == len(held), "size is %r with %d bytes waiting", ch.size, len(held))
            if held:
                env.check(bool(ch), "the channel claims to have no data, with %r waiting", held)
        end = ex.pick(["go on", "close", "drop", "block"], label="end")
        ex.note(end)
        if end == "close":
            # what came before it is still there
            sv.close_channel(3)
            sv.route(3, b"late")
        elif end == "drop":
            sv.disconnect()
        env.settle()
        got = b""
        for _ in range(200):
            d = ch.read(3, timeout=1.0, block=True) if end == "block" else ch.read(3)
            if not d:
                break
            got += d
        env.check(got == held, "the rest was %r, not %r", got, held)
        env.check(other.read(100) == b"other", "another channel's data changed")
        env.check(not ch and ch.size == 0, "the drained channel claims to have data")

    env.run(main)


def big(ex):
    """Large and many messages, read in pieces around the message boundaries."""
    count, size = ex.pick([(1, 1 << 20), (3, 70000), (500, 7), (2000, 1)], label="messages")
    piece = ex.pick([1000, 4096, 69999, 70000, 70001, 1 << 21, 13], label="piece")
    env = agent.Env(ex, preempt=False, horizon=3000000)

    def main():
        env.start_agent()
        env.up()
        ch = env.client.m2m.m2m_client.get_channel(3)
        want = []
        for i in range(count):
            d = blob(i, 4099) * (size // 4099 + 1)
            want.append(d[:size])
            env.server.route(3, d[:size])
        env.settle()
        want = b"".join(want)
        got = []
        pos = 0
        while pos < len(want):
            d = ch.read(piece)
            env.check(d == want[pos:pos + piece], "read(%d) at %d gave %d bytes", piece, pos, len(d))
            pos += len(d)
            got.append(d)
        env.check(ch.read(piece) == b"", "data left")
        ex.note(count, size, piece)

    env.run(main)


def one_reader(ex):
    """A writer (the session's thread) against one reader that waits, statement by statement."""
    sizes, piece, timeout = ex.params
    env = agent.Env(ex, points=POINTS)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        ch = env.client.m2m.m2m_client.get_channel(3)
        total = sum(sizes)
        got = []

        def reader():
            n = 0
            while n < total:
                d = ch.read(piece, timeout=timeout, block=True)
                env.check(d, "a waiting read gave nothing after %r (at %r)", got, env.s.now - core.START_TIME)
                got.append(d)
                n += len(d)
        env.s.preempt = True
        env.s.spawn(reader, "reader", kind="agent")
        pos = 0
        for n in sizes:
            env.server.route(3, blob(pos, n))
            pos += n
        env.settle(10)
        errs = [str(e[1]) for e in env.s.thread_errors]
        env.check(not errs, "the reader failed: %r", errs)
        env.check(b"".join(got) == blob(0, total), "read %r, not %r", got, blob(0, total))
        env.check(ch.size == 0 and not ch, "data left: %r", ch.size)
        ex.note(got)

    env.run(main)


def two_readers(ex):
    """Two readers share a channel: nothing lost, nothing twice, each reader's part in order."""
    block = ex.params
    env = agent.Env(ex, points=POINTS)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        ch = env.client.m2m.m2m_client.get_channel(3)
        got = {0: [], 1: []}

        def reader(i):
            for _ in range(3):
                got[i].append(ch.read(2, timeout=1.0, block=block))
        env.s.preempt = True
        for i in range(2):
            env.s.spawn(lambda i=i: reader(i), "reader%d" % i, kind="agent")
        env.server.route(3, blob(1, 3))
        env.server.route(3, blob(4, 2))
        env.settle(10)
        env.check(not env.s.thread_errors, "a reader failed: %r", env.s.thread_errors)
        rest = b""
        while ch.size:
            rest += ch.read(2)
        parts = [b"".join(got[0]), b"".join(got[1]), rest]
        for p in parts:
            env.check(list(p) == sorted(p), "a reader saw %r out of order", p)
        env.check(sorted(b"".join(parts)) == [1, 2, 3, 4, 5], "readers got %r, rest %r", got, rest)
        ex.note(parts)

    env.run(main)


def late(ex):
    """Data arrives before, at or after the timeout of a waiting reader."""
    env = agent.Env(ex)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        ch = env.client.m2m.m2m_client.get_channel(3)
        res = []

        def reader():
            t = env.s.now
            res.append((ch.read(10, timeout=patience, block=True), env.s.now - t))
            res.append((ch.read(10, timeout=None, block=True), env.s.now - t))
        delay = ex.pick([0, 4.5, 5.5, 60, 1000], label="delay")
        patience = ex.pick([5.0, 0, 0.25, 3600.0] if delay in (0, 1000) else [5.0], label="timeout")
        env.s.spawn(reader, "reader", kind="agent")
        env.s.preempt = True
        if delay:
            env.settle(delay)
        env.server.route(3, b"abc")
        env.settle(10)
        env.server.route(3, b"def")
        env.settle(10)
        env.check(len(res) >= 1, "the reader never came back")
        if delay == 0 and res[0][0] == b"" and patience < 5:
            # looked before it arrived
            env.check(res[0][1] <= patience + .01, "an empty read took %r s, not %r", res[0][1], patience)
            env.check(res[1:] and res[1][0] == b"abc", "then %r", res[1:])
        elif delay < patience or delay == 0:
            env.check(res[0][0] == b"abc" and res[0][1] <= delay + .1, "data after %r s: read gave %r", delay, res[0])
            env.check(res[1:] and res[1][0] == b"def", "then %r", res[1:])
        else:
            env.check(res[0][0] == b"" and abs(res[0][1] - patience) < .01, "no data for %r s: read gave %r", patience, res[0])
            env.check(res[1:] and res[1][0] == b"abc", "then %r", res[1:])
        ex.note(res)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("histories", histories, 0, 5 if deep else 4, about="arrivals and reads of every size"),
        Family("big", big, 0, about="large and many messages"),
        Family("reader-1-1", one_reader, 4 if deep else 3, ((1, 1), 10, None), about="wait for ever, two messages"),
        Family("reader-3-2", one_reader, 4 if deep else 3, ((3, 2), 2, None), about="partial reads"),
        Family("reader-timeout", one_reader, 3 if deep else 2, ((2, 1, 1), 1, 5.0), about="with a timeout"),
        Family("two-readers", two_readers, 3 if deep else 2, False, about="two readers"),
        Family("two-readers-wait", two_readers, 3 if deep else 1, True, about="two waiting readers"),
        Family("late", late, 2, about="data around the timeout"),
    ]
