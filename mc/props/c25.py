"""C25: machine tags reach the server whenever they change."""
import itertools
import os
import subprocess
import urllib.error

from .. import agent, boot, core, vfs, vos
from ..main import Family

M = "dataplicity."


def parse(out):
    """The tags in an output: an independent reading of the rules."""
    text = out.decode("utf-8", "ignore")
    tags, cur = [], ""
    for c in text + ",":
        if c == "," or c.isspace():
            if cur:
                tags.append(cur[:25])
            cur = ""
        else:
            cur += c
    return tags


class Machine(object):
    """The tag script: missing, failing, or printing something. The web API: told what to answer."""

    def __init__(self, env, api=None):
        self.env = env
        self.script = None  # None (missing) | bytes | exception | exit code
        self.runs = 0
        self.outcome = api or (lambda: "ok")
        self.registered = []  # tag lists the server has accepted, in order
        self.requests = []
        home = os.path.join(boot.SCRATCH, "tags%d" % os.getpid())
        if not os.path.isdir(home):
            os.mkdir(home)
        self.home = home
        os.environ["HOME"] = home
        self.path = os.path.join(home, "dataplicity_tags")
        if os.path.exists(self.path):
            os.remove(self.path)
        env.w.check_output = self.check_output
        env.w.popen = self.popen
        env.api.behave = self.behave

    def set(self, script):
        self.script = script
        if script is None:
            if os.path.exists(self.path):
                os.remove(self.path)
        elif not os.path.exists(self.path):
            open(self.path, "wb").close()
            os.chmod(self.path, 0o755)

    def check_output(self, args):
        a = args if isinstance(args, (str, bytes)) else args[0]
        if os.fspath(a).split() != [self.path]:
            raise FileNotFoundError(2, "No such file or directory")  # (the system's details are looked for in several places)
        self.runs += 1
        s = self.script
        if isinstance(s, bytes):
            return s
        if isinstance(s, int):
            raise subprocess.CalledProcessError(s, args)
        if s is None:
            raise FileNotFoundError(2, "No such file or directory")
        raise s

    def popen(self, p, rec):
        """The same script, run in any other way."""
        try:
            out, code = self.check_output(rec["args"]), 0
        except subprocess.CalledProcessError as e:
            out, code = b"", e.returncode
        if p.stdout is not None:
            p.stdout.feed(out)
            p.stdout.hangup()
        if p.stderr is not None:
            p.stderr.hangup()
        p.proc.exit(code if code >= 0 else 0, -code if code < 0 else 0)

    def behave(self, n, calls):
        if not any(c["method"] == "device.set_machine_defined_tags" for c in calls):
            return "ok"
        env = self.env
        env.check([c["method"] for c in calls] == ["device.check_auth", "device.set_machine_defined_tags"], "%r", calls)
        env.check(calls[0]["params"].get("serial") == "SERIAL" and calls[0]["params"].get("auth_token") == "TOKEN", "%r", calls[0])
        tags = calls[1]["params"]
        env.check(set(tags) == {"tag_list"}, "%r", tags)
        tags = tags["tag_list"]
        self.requests.append(tags)
        kind = self.outcome()
        env.ex.note(kind)
        if kind == "ok":
            self.registered.append(tags)
            return "ok"
        if kind == "unreachable":
            return urllib.error.URLError("down")
        if kind == "html":
            return b"<html>"
        no = {"code": 7, "message": "no"}
        replies = [{"jsonrpc": "2.0", "id": calls[0]["id"], "result": True}, {"jsonrpc": "2.0", "id": calls[1]["id"], "error": no}]
        if kind == "auth":
            replies[0] = {"jsonrpc": "2.0", "id": calls[0]["id"], "error": no}
        elif kind == "missing":
            replies.pop()
        elif kind == "internal":
            replies[1]["error"] = {"code": -32603, "message": "internal"}
        return replies


def outputs(ex):
    """Every short output over the alphabet of separators and others."""
    alphabet, n = ex.params
    first = ex.pick(alphabet, label="first")
    env = agent.Env(ex, preempt=False)
    m = Machine(env)

    def main():
        env.start_agent()
        last = None
        for k in range(0, n + 1):
            for rest in itertools.product(alphabet, repeat=k):
                for out in {b"".join((first,) + rest), b"".join(rest)} if k == n else [b"".join((first,) + rest)]:
                    env.fresh()
                    # something else in between, so that every list is a change
                    m.set(b"between")
                    env.client.poll()
                    m.set(out)
                    r = len(m.requests)
                    env.client.poll()
                    got = m.requests[r:]
                    want = parse(out)
                    env.check(got == ([want] if want != ["between"] else []), "the output %r was registered as %r, not %r", out, got, want)
        ex.note(first)

    env.run(main)


LENGTHS = [24, 25, 26, 50, 51, 100]


def long_tags(ex):
    """Tags around the greatest length, in different characters, alone and among others."""
    k = ex.pick(LENGTHS, label="length")
    ch = ex.pick([u"x", u"\u00e9", u"\u65e5", u"\U0001f600"], label="character")
    shape = ex.pick(["%s", " %s ", "a,%s", "%s\nb\n", "%s,%s", "a%s", "\r\n%s\r\n", "%s\tz"], label="shape")
    env = agent.Env(ex, preempt=False)
    m = Machine(env)

    def main():
        env.start_agent()
        out = shape.replace("%s", ch * k).encode("utf-8")
        m.set(out)
        env.client.poll()
        want = parse(out)
        env.check(m.requests == [want], "%r was registered as %r", out, m.requests)
        env.check(all(len(t) <= 25 for t in m.requests[0]), "too long: %r", m.requests)
        ex.note(k, ch, shape)

    env.run(main)


SCRIPTS = [b"a,b\n", b"b,a\n", b"a b", None, 1, b"", -9, OSError(5, "Input/output error"), b"\xffa,b", MemoryError()]
OUTCOMES = ["ok", "unreachable", "error", "auth", "missing", "html", "internal"]


def histories(ex):
    """Every sequence of what the script does and what the server answers."""
    depth, scripts, outcomes = ex.params
    env = agent.Env(ex, preempt=False)
    m = Machine(env, lambda: ex.pick(outcomes, label="outcome"))

    def main():
        env.start_agent()
        known = None  # what the server has accepted last
        for i in range(ex.cycled(depth)):
            env.fresh()
            s = ex.pick(scripts, label="script")
            ex.note(s if not isinstance(s, BaseException) else type(s).__name__)
            m.set(s)
            if isinstance(s, bytes):
                tags = parse(s)
            elif s is None or isinstance(s, OSError):
                tags = []  # no script, or none that can be run: no tags
            else:
                tags = None
            n = len(m.requests)
            acc = len(m.registered)
            env.client.poll()
            got = m.requests[n:]
            want = [] if tags is None or tags == known else [tags]
            env.check(got == want, "script %r with %r known to the server: registered %r, not %r", s, known, got, want)
            if len(m.registered) > acc:
                known = m.registered[-1]
        # in the end, everything works: the server knows
        m.outcome = lambda: "ok"
        m.set(b"end")
        env.client.poll()
        env.check(m.registered[-1:] == [["end"]], "the last tags were not registered: %r", m.registered)

    env.run(main)


def running(ex):
    """The running agent looks every minute, whatever happened before."""
    env = agent.Env(ex, preempt=False)
    kinds = ["ok", "unreachable", "auth"]
    m = Machine(env, lambda: ex.pick(kinds, label="outcome"))
    scripts = [ex.pick([b"t", b"u", 1, None], label="script") for _ in range(ex.params)]

    def main():
        env.start_agent()
        m.set(scripts[0])
        env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.settle(1)
        known = m.registered[-1] if m.registered else None
        for i, s in enumerate(scripts):
            runs = m.runs
            m.set(s)
            if i:
                n = len(m.requests)
                env.settle(60)
                tags = parse(s) if isinstance(s, bytes) else [] if s is None else None
                want = [] if tags is None or tags == known else [tags]
                env.check(m.requests[n:] == want, "minute %d: registered %r, not %r", i, m.requests[n:], want)
                env.check(s is None or m.runs == runs + 1, "minute %d: the script ran %d times", i, m.runs - runs)
                known = m.registered[-1] if m.registered else None
        ex.note(scripts)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    alpha = [b"a", b"B", b",", b" ", b"\n", b"\t", b"\xc3\xa9", b"\xff", b"-"]
    if deep:
        alpha += [b"\r", b"\x0b", b"\x0c", b";", b"\xe2\x80\x83", b"\0"]
    return [
        Family("outputs", outputs, 0, (alpha, 3), about="every short output"),
        Family("spaces", outputs, 0, ([b"a", b"\r", b"\x0b", b"\x0c", b"\xe2\x80\x83", b"\xc2\xa0", b",", b";", b"\"", b"\0"], 2), about="other white space"),
        Family("long", long_tags, 0, about="tags around the greatest length"),
        Family("outcomes", histories, 0, (2, SCRIPTS, OUTCOMES), about="every outcome"),
        Family("histories", histories, 0, (5 if deep else 4, [b"a,b\n", b"b,a\n", None, 1], ["ok", "unreachable", "error"]), about="longer histories"),
        Family("cycles", histories, 0, (core.Cycled(3, 30) if deep else core.Cycled(2, 30), SCRIPTS, ["ok", "unreachable", "error"]), about="the same few events, over and over"),
        Family("running", running, 0, 4 if deep else 3, about="the running agent"),
    ]
