"""C33: the device's token goes to the web API and nowhere else."""
import base64
import io
import json
import logging
import os
import socket
import sys
import urllib.error
import urllib.parse

from .. import agent, boot, core, files, kit, vfs, vos
from ..main import Family
from . import c29, c32

TOKEN = "kY7-wQz4Vd+Xe/9s=B2"
FORMS = None


def forms():
    """What the token looks like, in pieces, whatever wraps it."""
    global FORMS
    if FORMS is None:
        t = TOKEN
        out = set()
        for i in range(len(t) - 6):
            out.add(t[i:i + 7])
            out.add(t[::-1][i:i + 7])
        b = t.encode()
        out |= {urllib.parse.quote(t, safe=""), urllib.parse.quote_plus(t), b.hex(), b.hex().upper(), t.upper(), t.lower(), t.replace("/", "\\/")}
        for pad in (b"", b"x", b"xx"):
            # (the part that does not depend on what comes before and after)
            e = base64.b64encode(pad + b).decode()
            out.add(e[4:-4])
        out.add(repr(list(b))[1:-1])
        FORMS = sorted(f for f in out)
    return FORMS


def tells(data):
    if isinstance(data, (bytes, bytearray)):
        data = bytes(data).decode("utf-8", "replace")
    elif not isinstance(data, str):
        data = repr(data)
    for f in forms():
        if f in data:
            i = data.index(f)
            return data[max(0, i - 60):i + 60]
    return None


class Logs(object):
    """Everything that is logged, at every level, by every logger."""

    def __init__(self):
        self.text = io.StringIO()
        self.n = 0

    def __enter__(self):
        self.root = logging.getLogger()
        self.old = logging.root.manager.disable, self.root.level, self.root.handlers[:]
        logging.disable(logging.NOTSET)
        self.handler = logging.StreamHandler(self.text)
        self.handler.setFormatter(logging.Formatter("%(asctime)s %(levelname)s %(name)s %(message)s"))
        self.root.handlers[:] = [self.handler]
        self.root.setLevel(1)
        self.levels = {}
        for name, lg in list(logging.root.manager.loggerDict.items()):
            if isinstance(lg, logging.Logger):
                self.levels[lg] = lg.level, lg.propagate, lg.disabled
                lg.setLevel(0)
                lg._cache.clear() if hasattr(lg, "_cache") else None
        self.root._cache.clear() if hasattr(self.root, "_cache") else None
        return self

    def __exit__(self, *a):
        level, self.root.level, self.root.handlers[:] = self.old
        logging.disable(level)
        for lg, (lv, pr, di) in self.levels.items():
            lg.level, lg.propagate, lg.disabled = lv, pr, di
        for lg in [self.root] + list(self.levels):
            lg._cache.clear() if hasattr(lg, "_cache") else None


def quiet(env, d, text, shells=None, ignore=()):
    """The token is nowhere but in what authenticates with the web API."""
    def no(where, data):
        t = tells(data)
        env.check(t is None, "the token is in %s: ...%s...", where, t)
    for line in text.splitlines():
        if not any(i in line for i in ignore):
            no("the log", line)
    for s in env.server.sent:
        no("a message to the M2M server (%d)" % s.type, s.raw)
    for w in getattr(env.server, "websockets", []):
        no("the address of the M2M server", w.url)
        no("the headers sent to the M2M server", [w.agent] + getattr(w, "headers", []))
    n = 0
    for url, calls in zip(env.api.urls, env.api.requests):
        no("the address of the web API", url)
        for c in calls:
            if c.get("method") == "device.check_auth":
                p = dict(c["params"])
                n += p.pop("auth_token", None) == TOKEN
                c = dict(c, params=p)
            no("a call of %s" % c.get("method"), json.dumps(c))
    for c in env.w.conns:
        no("what was sent to a local server", c.to_server)
    for p in env.w.ptys:
        no("the input of a terminal", p.inp)
    for rec in env.w.popen_log:
        no("the arguments of a process", rec["args"])
        no("the environment of a process", rec["kw"])
    no("the arguments of a process", env.w.exec_log)
    no("the environment", [v for k, v in os.environ.items()])
    for root, dirs, fs in os.walk(d.base):
        for f in fs:
            no("the name of a file", f)
            with vfs.open_real(os.path.join(root, f), "rb") as fh:
                no("the file %s" % f, fh.read())
    return n


def work(ex):
    """Every two kinds of work, one during the other: nothing tells the token."""
    first = ex.pick(c32.NAMES, label="work")
    second = ex.pick(c32.NAMES, label="meanwhile")
    if not ex.params and (c32.NAMES.index(first) + c32.NAMES.index(second)) % 2:
        return
    w = c32.Node(ex)
    env = w.env
    logs = Logs()

    def main():
        with logs:
            w.begin(auth_token=TOKEN)
            ends = [c32.FN[name](w) for name in ([first, second] if first != second else [first])]
            env.settle(1)
            for end in ends:
                end()
                env.settle(1)
            env.settle(70)
            env.ping()
        text = logs.text.getvalue()
        env.check(len(text) > 500, "nothing was logged: %r", text)
        n = quiet(env, w.d, text)
        env.check(n, "the token was not sent at all")
        ex.note(first, second, n)

    env.run(main)


class Failing(object):
    """A reply that fails while it is read."""


def http(code):
    return urllib.error.HTTPError("https://api.test/", code, "failed", {}, io.BytesIO(b"<html>failed</html>"))


def replies(calls):
    ok = [{"jsonrpc": "2.0", "id": c["id"], "result": True} for c in calls if "id" in c]
    bad = [{"jsonrpc": "2.0", "id": c["id"], "error": {"code": -3, "message": "no", "data": {"x": 1}}} for c in calls if "id" in c]
    return {
        "ok": "ok", "refused": bad, "auth": bad[:1] + ok[1:], "rest": ok[:1] + bad[1:], "part": ok[:1], "none": [],
        "single": json.dumps({"jsonrpc": "2.0", "id": None, "error": {"code": -32600, "message": "invalid"}}).encode(),
        "unreachable": urllib.error.URLError("unreachable"), "timeout": socket.timeout("timed out"), "404": http(404), "500": http(500), "401": http(401),
        "garbage": b"<html>", "empty": b"", "null": b"null", "wrong": b'[{"id": "1"}, 5, null, {"jsonrpc": "2.0", "id": 77, "result": 1}]',
        "broken": vos.VResponse(ConnectionResetError(104, "reset")), "memory": MemoryError("no memory"), "odd": Exception("odd"), "unicode": b"\xff\xfe",
        "type": TypeError("bad"), "value": ValueError("bad"),
    }


MODES = sorted(replies([{"id": 1}]))


class Run(c29.Run):
    """dataplicity <args> with its log: what it writes goes to err."""

    def start(self, logs):
        old = sys.argv, sys.stdout, sys.stderr
        sys.argv, sys.stdout, sys.stderr = ["dataplicity"] + self.args, self.out, self.err
        try:
            self.task = self.env.s.spawn(self.body, "main", kind="agent")
            self.env.settle(1)
        finally:
            sys.argv, sys.stdout, sys.stderr = old
        return self


def failures(ex):
    """Every way in which the web API can fail, for each kind of request: the token is not told by the complaints."""
    step = ex.pick(["disk", "tags", "sync", "identity", "all"], label="request")
    mode = ex.pick(MODES, label="reply")
    source = ex.pick(["file", "argument"], label="token from")
    level = ex.pick(["DEBUG", "debug flag"] + (["INFO", "CRITICAL"] if ex.params else []), label="level")
    c29.load({})
    env = agent.Env(ex, preempt=False, time_horizon=10 ** 6)
    logs = Logs()

    def main():
        with logs:
            args = ["--log-level", "DEBUG", "--debug"] if level == "debug flag" else ["--log-level", level]
            r = Run(env, args + (["--auth", TOKEN] if source == "argument" else []) + ["run"], auth=(TOKEN + "\n").encode() if source == "file" else b"other\n")
            env.w.check_output = lambda a: b"tag1,tag2"
            names = {"disk": "device.set_disk_space", "tags": "device.set_machine_defined_tags", "identity": "m2m.associate", "sync": "device.set_uname"}

            def api(n, calls):
                ms = [c["method"] for c in calls]
                if step == "all" or names[step] in ms:
                    return replies(calls)[mode]
                return "ok"
            env.api.behave = api
            r.start(logs)
            env.up()
            env.server.instruct(action=b"sync")
            env.settle(70)
            env.server.push("poll")
            env.settle(1)
            env.server.disconnect()
            env.settle(2)
            env.check(r.runs, "ended with %r: %s", r.code, r.err.getvalue()[-300:])
        n = quiet(env, r.d, logs.text.getvalue() + r.err.getvalue() + r.out.getvalue())
        env.check(n, "the token was not sent at all")
        ex.note(step, mode, source, level, n)

    env.run(main)


def starts(ex):
    """Starts that fail: the complaint does not tell the token."""
    why = ex.pick(["no serial", "unreadable serial", "bad url", "bad m2m", "no thread", "remote", "bad level", "log file", "version", "unknown command", "unknown option",
                   "bad serial"], label="why")
    source = ex.pick(["file", "argument"], label="token from")
    debug = ex.pick([0, 1], label="debug")
    c29.load({})
    env = agent.Env(ex, preempt=False, time_horizon=10 ** 6)
    logs = Logs()

    def main():
        from .. import vthread
        with logs:
            args = []
            if debug:
                args += ["--debug", "--log-level", "DEBUG"]
            if source == "argument":
                args += ["--auth", TOKEN]
            args += {"bad url": ["-s", "nonsense"], "bad m2m": ["-m", "http//x y"], "remote": ["--remote-dir", "\0"], "bad level": ["--log-level", "LOUD"],
                     "log file": ["--log-file", "/nonexistent/dir/log"], "unknown option": ["--bogus"]}.get(why, [])
            args += [{"version": "version", "unknown command": "walk"}.get(why, "run")]
            serial = {"no serial": FileNotFoundError(2, "No such file"), "unreadable serial": PermissionError(13, "denied"), "bad serial": b"\xff"}.get(why, b"SER\n")
            r = Run(env, args, serial=serial, auth=(TOKEN + "\n").encode() if source == "file" else b"other\n")
            if why == "no thread":
                vthread.HOOK.thread_start_fault = lambda t: True
            try:
                r.start(logs)
            finally:
                vthread.HOOK.thread_start_fault = None
            env.settle(5)
        text = logs.text.getvalue() + "\n" + r.err.getvalue() + r.out.getvalue()
        # (the command line the user typed is shown to the user)
        quiet(env, r.d, text, ignore=("(run '",) if source == "argument" else ())
        ex.note(why, source, debug, r.code, len(text))

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("failures", failures, 0, deep, about="every failure of the web API"),
        Family("starts", starts, 0, about="starts that fail"),
        Family("work", work, 0, deep, about="every kind of work"),
    ]
