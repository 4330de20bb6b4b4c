"""C16: a terminal carries input, output and window size faithfully."""
from .. import agent, core, kit, vos
from ..main import Family

M = "dataplicity."
POINTS = (M + "m2m.remoteprocess", M + "m2m.proxy", M + "m2mmanager")


def blob(n, k=0):
    one = bytes(bytearray((j * 7 + k + j // 251) & 255 for j in range(min(n, 5003))))
    return (one * (n // max(1, len(one)) + 1))[:n]


def start(env):
    env.start_agent()
    sh = kit.Shells(env)
    env.up()
    return sh


def term(env, sh, ch=3, **kw):
    kit.open_term(env.server, ch, **kw)
    env.settle()
    env.check(len(sh.procs) >= 1, "no process was launched")
    return sh.ptys[-1]


PLANS = {
    "all": None,
    "one": lambda n: min(n, 1),
    "half": lambda n: (n + 1) // 2,
    "4095": lambda n: min(n, 4095),
}


def histories(ex):
    """Every order of input, output, resizes, junk, pauses, slow and fast reading, and the end."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6, horizon=200000)

    def main():
        sh = start(env)
        sv = env.server
        first = ex.pick([None, [100, 40]], label="size")
        if first is None:
            t = term(env, sh)
        else:
            t = term(env, sh, size=first)
        size = (40, 100) if first else (24, 80)
        t.write_plan = PLANS[ex.pick(["all", "half"], label="plan")]
        given, shown = b"", b""
        for step in range(ex.cycled(depth)):
            env.fresh()
            ev = ex.pick(["type", "long", "show", "much", "resize", "junk", "stop-reading", "read", "pause", "exit"], label="event")
            ex.note(ev)
            if ev == "type":
                d = b"k%d\r" % step
                sv.route(3, d)
                given += d
            elif ev == "long":
                d = blob(5000, step)
                sv.route(3, d)
                sv.route(3, b"")
                given += d
            elif ev == "show":
                d = b"line %d\r\n\x00\xff" % step
                t.out += d
                shown += d
            elif ev == "much":
                d = blob(9000, step)
                t.out += d
                shown += d
            elif ev == "resize":
                sv.control(3, {"type": "window_resize", "size": [60 + step, 30 + step]})
                size = (30 + step, 60 + step)
            elif ev == "junk":
                sv.control(3, b"{not json")
                sv.control(3, {"type": "dance"})
                sv.control(3, {"type": "window_resize", "size": [1]})
            elif ev == "stop-reading":
                t.capacity = 3
            elif ev == "read":
                if t.capacity is not None:
                    t.capacity += 4
            elif ev == "pause":
                env.settle(6)
            elif ev == "exit":
                t.capacity = None
                env.settle()
                t.out += b"bye" * 2000
                shown += b"bye" * 2000
                sh.procs[0].exit(0)
                env.settle()
                break
            if ex.choose(2, label="pile") == 0:
                env.settle()
                if t.capacity is None:
                    env.check(bytes(t.inp) == given, "the process got %r, not %r", bytes(t.inp)[:80], given[:80])
                    env.check(sv.data(3) == shown, "sent %r, not %r", sv.data(3)[:80], shown[:80])
                    env.check(t.size == size, "the window has %r, not %r", t.size, size)
        t.capacity = None
        env.settle()
        env.check(bytes(t.inp) == given, "the process got %r, not %r", bytes(t.inp)[-80:], given[-80:])
        env.check(sv.data(3) == shown, "sent %d bytes, not %d", len(sv.data(3)), len(shown))
        env.check(t.size == size, "the window has %r, not %r", t.size, size)
        if sh.procs[0].alive:
            env.check(not sv.closes(3), "the channel was closed")
        env.ping()

    env.run(main)


def amounts(ex):
    """Amounts of input and output, however the process takes and gives them."""
    n = ex.pick([1, 2, 100, 4095, 4096, 65536, 300000], label="size")
    k = ex.pick([1, 2, 3], label="messages")
    plan = ex.pick(["all", "half", "4095"] + (["one"] if n <= 4096 else []), label="plan")
    out = ex.pick([0, 1, 4095, 4096, 4097, 8190, 100000], label="output")
    at = ex.pick(["live", "end"], label="output when")
    env = agent.Env(ex, preempt=False, horizon=1000000)

    def main():
        sh = start(env)
        sv = env.server
        t = term(env, sh)
        t.write_plan = PLANS[plan]
        want = b""
        for i in range(k):
            sv.route(3, blob(n, i))
            want += blob(n, i)
        env.settle()
        env.check(bytes(t.inp) == want, "the process got %d bytes of %d", len(t.inp), len(want))
        t.out += blob(out, 50)
        if at == "live":
            env.settle()
        t.out += blob(77, 51)
        sh.procs[0].exit(0)
        env.settle()
        env.check(sv.data(3) == blob(out, 50) + blob(77, 51), "sent %d bytes of %d", len(sv.data(3)), out + 77)
        env.check(t.closed, "the descriptor was left open")
        ex.note(n, k, plan, out, at)

    env.run(main)


GOOD = [[1, 1], [80, 24], [24, 80], [132, 50], [300, 100], [0, 0], [32767, 1], [1, 32767], [255, 256]]
BAD = [
    b"", b"{", b"null", b"[]", b"1", b"\"x\"", b"\xff\xfe", b"{}", b"true",
    {"type": None}, {"type": 1}, {"type": "window_resize"}, {"type": "resize", "size": [1, 2]},
    {"type": "window_resize", "size": None}, {"type": "window_resize", "size": []},
    {"type": "window_resize", "size": [5]}, {"type": "window_resize", "size": [5, 6, 7]},
    {"type": "window_resize", "size": 7}, {"type": "window_resize", "size": "57"},
    {"type": "window_resize", "size": ["a", "b"]}, {"type": "window_resize", "size": [5, None]},
    {"type": "window_resize", "size": [[5], 6]}, {"type": "window_resize", "size": [5.5, 6]},
    {"type": "window_resize", "size": [40000, 5]}, {"type": "window_resize", "size": [5, 10 ** 30]},
    {"type": "window_resize", "size": {"5": 6}}, {"type": "window_resize", "size": [5, "6"]},
    {"type": ["window_resize"], "size": [5, 6]}, {"Type": "window_resize", "size": [5, 6]},
    {"type": "WINDOW_RESIZE", "size": [5, 6]},
]


def sizes(ex):
    """Window sizes, valid and not, before and after the launch, and one after another."""
    when = ex.pick(["open", "before", "after"], label="when")
    env = agent.Env(ex, preempt=False)
    a = ex.pick(GOOD, label="first")
    second = ex.pick([("good", g) for g in GOOD] + [("bad", b) for b in BAD], label="second")

    def main():
        sh = start(env)
        sv = env.server
        win = lambda s: (s[1], s[0])
        if when == "open":
            t = term(env, sh, size=a)
            env.check(t.size == win(a), "opened with %r, the window has %r", a, t.size)
        elif when == "before":
            # it waits for its turn to be launched
            gate = []
            fork = env.w.ptyfork

            def slow():
                core.S.block(lambda: bool(gate), None, "fork")
                return fork()
            env.w.ptyfork = slow
            kit.open_term(sv, 3)
            env.settle()
            sv.control(3, {"type": "window_resize", "size": a})
            env.settle()
        else:
            t = term(env, sh)
            env.check(t.size == (24, 80), "the window has %r at first", t.size)
            sv.control(3, {"type": "window_resize", "size": a})
            env.settle()
            env.check(t.size == win(a), "resized to %r, the window has %r", a, t.size)
        kind, b = second
        sv.control(3, {"type": "window_resize", "size": b} if kind == "good" else b)
        sv.route(3, b"input")
        env.settle()
        if when == "before":
            gate.append(1)
            env.settle()
            t = sh.ptys[-1]
        want = win(b) if kind == "good" else win(a)
        env.check(t.size == want, "after %r and %r the window has %r, not %r", a, second, t.size, want)
        t.out += b"output"
        env.settle()
        env.check(bytes(t.inp) == b"input" and sv.data(3) == b"output", "the terminal does not work: %r %r", bytes(t.inp), sv.data(3))
        env.check(not sv.closes(3), "the channel was closed")
        # a program in the terminal changes the size itself (stty), then the server asks for the last one again
        t.size = (7, 9)
        sv.control(3, {"type": "window_resize", "size": b if kind == "good" else a})
        env.settle()
        env.check(t.size == want, "asked again for %r, the window has %r", want, t.size)
        env.ping()
        ex.note(when, a, repr(second))

    env.run(main)


def bad_open(ex):
    """Opening with a size that is none launches nothing that is left unattended."""
    size = ex.pick([[], [1], [1, 2, 3], b"ab", [b"a", b"b"], 5, {}, [40000, 1], [[], []]], label="size")
    env = agent.Env(ex, preempt=False)

    def main():
        sh = start(env)
        sv = env.server
        kit.open_term(sv, 3, size=size)
        env.settle()
        for p in sh.procs:
            t = p.pty
            t.out += b"hello"
            sv.route(3, b"x")
            env.settle()
            env.check(sv.data(3) == b"hello" and bytes(t.inp) == b"x", "size %r: the process is left unattended", size)
        t = None
        kit.open_term(sv, 4, size=[50, 20])
        env.settle()
        t = sh.ptys[-1]
        env.check(t.size == (20, 50), "%r", t.size)
        env.ping()
        ex.note(repr(size), len(sh.procs))

    env.run(main)


def several(ex):
    """Several terminals: each one's input, output and size are its own; descriptors are reused."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e6)

    def main():
        env.w.reuse_fds = True
        sh = start(env)
        sv = env.server
        terms = {}
        n = 0

        def launch(ch):
            kit.open_term(sv, ch)
            env.settle()
            terms[ch] = dict(t=sh.ptys[-1], p=sh.procs[-1], given=b"", shown=b"", size=(24, 80), base=len(sv.data(ch)))
        for ch in (3, 4):
            launch(ch)
        for step in range(depth):
            env.fresh()
            ch = ex.pick([3, 4], label="channel")
            ev = ex.pick(["type", "show", "resize", "exit", "close"], label="event")
            ex.note(ch, ev)
            st = terms[ch]
            if ev == "type":
                d = b"%d<%d" % (ch, step)
                sv.route(ch, d)
                if st["p"].alive:
                    st["given"] += d
            elif ev == "show" and st["p"].alive:
                d = b"%d>%d" % (ch, step)
                st["t"].out += d
                st["shown"] += d
            elif ev == "resize":
                sv.control(ch, {"type": "window_resize", "size": [50 + step, 10 + ch]})
                if st["p"].alive:
                    st["size"] = (10 + ch, 50 + step)
            elif ev == "exit":
                st["p"].exit(0)
                env.settle()
            elif ev == "close":
                sv.close_channel(ch)
                env.settle(3)
                launch(ch)
            env.settle()
            for c, s in terms.items():
                env.check(bytes(s["t"].inp) == s["given"], "terminal %d got %r, not %r", c, bytes(s["t"].inp), s["given"])
                got = sv.data(c)[s["base"]:]
                env.check(got == s["shown"], "terminal %d sent %r, not %r", c, got, s["shown"])
                if s["p"].alive:
                    env.check(s["t"].size == s["size"], "terminal %d has size %r, not %r", c, s["t"].size, s["size"])

    env.run(main)


def races(ex):
    """Launching, typing, resizing, output and the end of the process, statement by statement."""
    how = ex.params
    env = agent.Env(ex, points=POINTS, time_horizon=1e5)

    def main():
        env.s.preempt = False
        env.w.reuse_fds = True
        sh = start(env)
        sv = env.server
        size = (24, 80)
        given = b""
        if how in ("launch", "launch-resize"):
            env.s.preempt = True
            kit.open_term(sv, 3)
            for i in range(3):
                sv.route(3, b"in%d" % i)
                given += b"in%d" % i
                if how == "launch-resize" and i < 2:
                    sv.control(3, {"type": "window_resize", "size": [90 + i, 30 + i]})
                    size = (30 + i, 90 + i)
            env.settle()
            t = sh.ptys[0]
        elif how == "traffic":
            t = term(env, sh)
            t.write_plan = PLANS["half"]
            env.s.preempt = True
            sv.route(3, b"abcd")
            t.out += b"one"
            sv.control(3, {"type": "window_resize", "size": [90, 30]})
            size = (30, 90)
            env.s.point()
            t.out += b"two"
            sv.route(3, b"efgh")
            given = b"abcdefgh"
            env.settle()
            env.check(sv.data(3) == b"onetwo", "sent %r", sv.data(3))
        elif how == "exit":
            # it ends while typed to; another terminal takes over its descriptor
            t = term(env, sh)
            env.s.preempt = True
            t.out += b"last words"
            sv.route(3, b"typed")
            sh.procs[0].exit(0)
            kit.open_term(sv, 4)
            sv.route(4, b"for four")
            env.settle()
            env.s.preempt = False
            env.settle(6)
            env.check(sv.data(3) == b"last words", "sent %r", sv.data(3))
            env.check(len(sh.ptys) == 2, "%d terminals", len(sh.ptys))
            t2 = sh.ptys[1]
            env.check(bytes(t2.inp) == b"for four", "the second terminal was given %r", bytes(t2.inp))
            env.check(b"typed".startswith(bytes(t.inp)), "the first terminal was given %r", bytes(t.inp))
            sv.control(4, {"type": "window_resize", "size": [70, 20]})
            env.settle()
            env.check(t2.size == (20, 70), "size %r", t2.size)
            ex.note(how, len(t.inp))
            return
        elif how == "exit-resize":
            t = term(env, sh)
            env.s.preempt = True
            sv.control(3, {"type": "window_resize", "size": [90, 30]})
            sh.procs[0].exit(0)
            kit.open_term(sv, 4)
            env.settle()
            env.s.preempt = False
            env.settle(6)
            t2 = sh.ptys[1]
            env.check(t2.size == (24, 80), "the second terminal got the size of the first: %r", t2.size)
            env.ping()
            return
        env.s.preempt = False
        env.settle()
        env.check(bytes(t.inp) == given, "the process got %r, not %r", bytes(t.inp), given)
        env.check(t.size == size, "the window has %r, not %r", t.size, size)
        env.check(not sv.closes(3), "the channel was closed")
        ex.note(how)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    out = [
        Family("histories", histories, 0, 4 if deep else 3, about="every order of events of one terminal"),
        Family("cycles", histories, 0, core.Cycled(3, 30) if deep else core.Cycled(2, 30), about="the same few events, over and over"),
        Family("amounts", amounts, 0, about="amounts of input and output"),
        Family("sizes", sizes, 0, about="window sizes and malformed controls"),
        Family("bad-open", bad_open, 0, about="opening with an invalid size"),
        Family("several", several, 0, 4 if deep else 3, about="two terminals"),
    ]
    for h in ("launch", "launch-resize", "traffic", "exit", "exit-resize"):
        out.append(Family("race-" + h, races, b, h, about=h))
    return out
