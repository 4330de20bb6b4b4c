"""C29: configuration means the same wherever it comes from."""
import io
import json
import logging
import os
import sys

from .. import agent, boot, core, files, kit, vfs
from ..main import Family

M = "dataplicity."
SERIAL, AUTH = "/opt/dataplicity/tuxtunnel/serial", "/opt/dataplicity/tuxtunnel/auth"
API, WS = "https://api.dataplicity.com", "wss://m2m.dataplicity.com/m2m/"
HOME_REMOTE = "/home/dataplicity/remote"
_loaded = [None]


def load(environ):
    """The agent as it is when started with these environment variables."""
    if _loaded[0] == environ:
        return
    for k in list(os.environ):
        if k.startswith("DATAPLICITY_"):
            del os.environ[k]
    os.environ.update(environ)
    for m in [m for m in sys.modules if m == "dataplicity" or m.startswith("dataplicity.")]:
        del sys.modules[m]
    import dataplicity.app  # noqa
    _loaded[0] = dict(environ)


class Out(io.StringIO):
    buffer = property(lambda self: io.BytesIO())


class Run(object):
    """dataplicity <args>, in a virtual machine."""

    def __init__(self, env, args, serial=b"FILE-SERIAL\n", auth=b"FILE-AUTH\n", tree=None):
        self.env = env
        self.d = files.Dirs({"f": b"here"} if tree is None else tree)
        env.s.fs = self.fs = vfs.Fs(env)
        self.fs.virtual[SERIAL] = serial
        self.fs.virtual[AUTH] = auth
        self.fs.virtual["/home"] = self.fs.virtual["/home/dataplicity"] = self.fs.virtual[HOME_REMOTE] = b""
        self.args = list(args)
        self.code = None
        self.out, self.err = Out(), Out()
        self.task = None

    def body(self):
        from dataplicity import app
        try:
            app.main()
            self.code = "returned"
        except SystemExit as e:
            self.code = e.code
        except Exception as e:
            # as the interpreter does
            self.code = 1
            self.err.write("Traceback: %r\n" % (e,))

    def start(self):
        old = sys.argv, sys.stdout, sys.stderr
        handlers = logging.root.handlers[:]
        sys.argv, sys.stdout, sys.stderr = ["dataplicity"] + self.args, self.out, self.err
        try:
            self.task = self.env.s.spawn(self.body, "main", kind="agent")
            self.env.settle(1)
        finally:
            sys.argv, sys.stdout, sys.stderr = old
            logging.root.handlers[:] = handlers
        return self

    @property
    def runs(self):
        return not self.task.done

    @property
    def urls(self):
        return [w.url for w in getattr(self.env.server, "websockets", [])]

    def scan_root(self):
        """Where the agent looks for the remote directory."""
        env = self.env
        n = len(self.fs.log)
        env.up()
        env.server.packet("scan_remote_directory")
        env.settle(1)
        touched = [p for name, p in self.fs.log[n:] if isinstance(p, str)]
        return touched[0] if touched else None


def split(url):
    base, q, features = url.partition("?")
    return base, sorted(features.partition("=")[2].split(",")) if q and features.startswith("features=") else features if q else None


def expect_ws(url):
    return split(url) if "?" in url else (url, ["downloads", "scan"])


def combinations(ex):
    """Every setting from every source, each independently of the others."""
    e_api = ex.pick([None, "https://env.test/api", ""], label="environment: api")
    e_ws = ex.pick([None, "ws://env.test/m2m", "ws://env.test/m2m?features=none", ""], label="environment: m2m")
    a_api = ex.pick([None, "http://arg.test/x"], label="argument: api")
    a_ws = ex.pick([None, "wss://arg.test/", "wss://arg.test/?a=b", "wss://arg.test/?", "wss://arg.test/?a=?features=x"], label="argument: m2m")
    a_ser = ex.pick([None, "ARG-SERIAL"], label="argument: serial")
    a_auth = ex.pick([None, "ARG-AUTH"], label="argument: auth")
    a_dir = ex.pick([None, "absolute", "home", "relative"], label="argument: directory")
    order = ex.choose(2, label="order of arguments") if ex.params else 0
    environ = {}
    if e_api is not None:
        environ["DATAPLICITY_API_URL"] = e_api
    if e_ws is not None:
        environ["DATAPLICITY_M2M_URL"] = e_ws
    load(environ)
    env = agent.Env(ex, preempt=False)

    def main():
        args = []
        r = Run(env, ())
        d = r.d
        os.chdir(d.base)
        if a_api:
            args += [["-s", a_api]]
        if a_ws:
            args += [["--m2m-url", a_ws]]
        if a_ser:
            args += [["--serial", a_ser]]
        if a_auth:
            args += [["--auth=" + a_auth]]
        if a_dir:
            args += [["--remote-dir", {"absolute": d.remote, "home": "~/remote", "relative": "remote"}[a_dir]]]
        if order:
            args.reverse()
        r.args = sum(args, []) + ["run"]
        r.start()
        env.check(r.runs, "%r: ended with %r, %r", r.args, r.code, r.err.getvalue())
        env.check(len(r.urls) == 1, "websockets: %r", r.urls)
        want = expect_ws(a_ws or e_ws or WS)
        env.check(split(r.urls[0]) == want, "%r: connects to %r", r.args, r.urls[0])
        want = a_api or e_api or API
        env.check(env.api.urls and set(env.api.urls) == {want}, "%r: requests to %r, not %r", r.args, sorted(set(env.api.urls)), want)
        for calls in env.api.requests:
            p = calls[0]["params"]
            env.check(p["serial"] == (a_ser or "FILE-SERIAL") and p["auth_token"] == (a_auth or "FILE-AUTH"), "%r: authenticates as %r", r.args, p)
        root = r.scan_root()
        env.check(root == (d.remote if a_dir else HOME_REMOTE), "%r: the remote directory is %r", r.args, root)
        ex.note(e_api, e_ws, r.args)

    env.run(main)


FILES = [b"X", b" X ", b"X\n", b"\nX\r\n\n", b"two words\n", u"\u00e9".encode("utf-8"), FileNotFoundError(2, "No such file or directory"),
         PermissionError(13, "Permission denied"), b"\xff\xfe"]


def installation(ex):
    """The files of the installation: read when the argument is missing, and only then; what can not be read is reported."""
    ser = ex.pick(FILES, label="serial file")
    auth = ex.pick(FILES, label="auth file")
    a_ser = ex.pick([None, "ARG-SERIAL"], label="argument: serial")
    a_auth = ex.pick([None, "ARG-AUTH"], label="argument: auth")
    load({})
    env = agent.Env(ex, preempt=False)

    def main():
        args = (["--serial", a_ser] if a_ser else []) + (["--auth", a_auth] if a_auth else [])
        r = Run(env, args + ["run"], ser, auth).start()

        def usable(v):
            try:
                return v.decode("utf-8").strip() if isinstance(v, bytes) else None
            except UnicodeDecodeError:
                return None
        want_ser, want_auth = a_ser or usable(ser), a_auth or usable(auth)
        ex.note(args, str(ser), str(auth))
        if want_ser is None or want_auth is None:
            env.check(not r.runs and r.code not in (0, None, "returned"), "runs without credentials: %r", r.code)
            env.check(r.err.getvalue().strip(), "not reported")
            env.check(not env.api.requests and not r.urls, "acted: %r %r", env.api.requests, r.urls)
            return
        env.check(r.runs, "ended with %r: %r", r.code, r.err.getvalue())
        for calls in env.api.requests:
            p = calls[0]["params"]
            env.check(p["serial"] == want_ser and p["auth_token"] == want_auth, "authenticates as %r", p)
        env.check(env.api.requests, "no requests")
        if a_ser:
            env.check(SERIAL not in [p for _, p in r.fs.log], "the serial file was read")
        if a_auth:
            env.check(AUTH not in [p for _, p in r.fs.log], "the auth file was read")

    env.run(main)


BAD_ARGS = [["--bogus", "run"], ["run", "--bogus"], ["walk"], ["--serial"], ["--auth"], ["-s"], ["-m"], ["--remote-dir"], ["run", "run"], ["run", "x"],
            ["--log-level", "LOUD", "run"], ["--log-level", "", "run"], ["--log-level"], ["--log-level", "LOUD", "version"], ["-x", "run"],
            ["--log-file"], ["--log-file", "/nonexistent-dir/x/log", "run"], ["--serial", "--auth", "run"], ["-dq", "--nope", "run"]]
NOT_RUN = [[], ["--serial", "S"], ["version"], ["--version"], ["-v"], ["-h"], ["--help"], ["run", "--help"], ["version", "-h"], ["--debug"], ["-q", "version"]]
RUN = [["run"], ["-q", "run"], ["-d", "run"], ["--debug", "run"], ["--quiet", "run"]] + [
    ["--log-level", x, "run"] for x in ("DEBUG", "info", "Warning", "WARN", "ERROR", "critical", "NOTSET")] + [["-q", "--log-level", "DEBUG", "run"]]


def arguments(ex):
    """Arguments that are not understood are reported, and nothing is done; those that are do what they say."""
    kind, args = ex.pick([("bad", a) for a in BAD_ARGS] + [("not run", a) for a in NOT_RUN] + [("run", a) for a in RUN], label="arguments")
    load({})
    env = agent.Env(ex, preempt=False)

    def main():
        r = Run(env, args).start()
        ex.note(kind, args, r.code)
        if kind == "run":
            env.check(r.runs and env.api.requests and len(r.urls) == 1, "%r: did not run: %r %r", args, r.code, r.err.getvalue())
            return
        env.check(not r.runs, "%r: it runs", args)
        env.check(not env.api.requests and not r.urls, "%r: acted", args)
        env.check(not env.s.thread_errors, "%r: failed with %r", args, env.s.thread_errors[:1])
        if kind == "bad":
            env.check(r.code not in (0, None, "returned"), "%r: ended with %r", args, r.code)
            env.check(r.err.getvalue().strip(), "%r: not reported", args)
        else:
            env.check((r.out.getvalue() + r.err.getvalue()).strip(), "%r: says nothing", args)
            if args and args[-1] in ("version", "--version", "-v"):
                import dataplicity
                env.check(dataplicity.__version__ in r.out.getvalue() + r.err.getvalue() and r.code in (0, None), "%r: %r", args, r.out.getvalue())

    env.run(main)


LEVELS = [(None, 20), ("DEBUG", 10), ("debug", 10), ("INFO", 20), ("Info", 20), ("WARN", 30), ("WARNING", 30), ("ERROR", 40), ("critical", 50), ("NOTSET", 0)]


class LogRun(Run):
    """With logging as a process of its own would have it."""

    def __enter__(self):
        root = logging.root
        self.old = root.manager.disable, root.level, root.handlers[:], sys.stderr
        logging.disable(logging.NOTSET)
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        sys.stderr = self.err
        return self

    def __exit__(self, *a):
        root = logging.root
        for h in root.handlers:
            if h not in self.old[2]:
                h.close()
        root.manager.disable, level, root.handlers[:], sys.stderr = self.old
        root.setLevel(level)
        return False

    def start(self):
        sys.argv, old = ["dataplicity"] + self.args, sys.argv
        try:
            self.task = self.env.s.spawn(self.body, "main", kind="agent")
            self.env.settle(1)
        finally:
            sys.argv = old
        return self

    def say(self, n, size=0):
        for name in ("agent", "m2m", "app", "pf"):
            for level in (10, 20, 30, 40, 50):
                logging.getLogger(name).log(level, "probe-%s-%d-%d%s", name, level, n, "x" * size)

    def heard(self, n, text):
        return {(name, level) for name in ("agent", "m2m", "app", "pf") for level in (10, 20, 30, 40, 50) if "probe-%s-%d-%d" % (name, level, n) in text}


def logs(ex):
    """The log goes where it should, with what it should."""
    name, level = ex.pick(LEVELS, label="level")
    where = ex.pick([None, "new", "existing", "home"] if name in (None, "DEBUG") else [None, "new"], label="file")
    quiet = ex.choose(2, label="quiet")
    debug = ex.choose(2, label="debug")
    long = name == "DEBUG" and where == "new" and not quiet and not debug
    load({})
    env = agent.Env(ex, preempt=False, horizon=10 ** 8)

    def main():
        r = LogRun(env, [])
        path = os.path.join(r.d.base, "agent.log")
        if where == "existing":
            with vfs.open_real(path, "w") as f:
                f.write("what was there\n")
        args = ["--quiet"] * quiet + ["-d"] * debug + (["--log-level", name] if name else []) + (["--log-file", path] if where else [])
        r.args = args + ["run"]
        with r:
            r.start()
            env.check(r.runs and len(env.api.requests) > 0, "%r: ended with %r: %s", args, r.code, r.err.getvalue()[-300:])
            r.fs.on = False
            r.say(1)
            want = 50 if quiet else level
            out = r.err.getvalue()
            if where:
                with vfs.open_real(path) as f:
                    out, other = f.read(), out
                env.check("probe" not in other + r.out.getvalue(), "%r: logs elsewhere too: %s", args, other[-300:])
                env.check(where != "existing" or out.startswith("what was there\n"), "%r: what was in the log file is gone", args)
            got = r.heard(1, out)
            env.check(got == {(n, lv) for n in ("agent", "m2m", "app", "pf") for lv in (10, 20, 30, 40, 50) if lv >= want},
                      "%r: logs %r", args, sorted(got))
            if want == 50:
                env.check(all("probe" in line or line == "what was there" for line in out.splitlines()), "%r: not quiet: %s", args, out[:300])
            if long:
                n = 10
                for n in range(10, 120 if not ex.params else 400):
                    env.fresh()
                    r.say(n, 20000)
                    files_ = [os.path.join(r.d.base, x) for x in os.listdir(r.d.base) if x.startswith("agent.log")]
                    total = sum(os.path.getsize(x) for x in files_)
                    env.check(total < 32 * 1024 * 1024, "the log takes %d bytes in %d files", total, len(files_))
                text = "".join(vfs.open_real(x).read() for x in files_)
                env.check(total > 9 * 1024 * 1024, "only %d bytes are kept", total)
                for i in range(n - 20, n + 1):
                    env.check(len(r.heard(i, text)) == 20, "recent messages are lost")
        ex.note(args, sorted(got))

    env.run(main)


INTS = [(None, "default"), ("3", 3), (" 4 ", 4), ("1", 1), ("abc", "default"), ("", "default"), ("2.5", "default"), ("1e3", "default"), ("0x10", "default"),
        ("0", "bad"), ("-1", "bad"), ("-500", "bad"), (u"\u00bd", "default"), ("nan", "default"), ("10 0", "default")]


def limits(ex):
    """The limits: from the environment if it has a usable number, else the documented defaults; each on its own."""
    s_text, s = ex.pick(INTS, label="services")
    t_text, t = ex.pick(INTS if ex.params else INTS[:6] + INTS[9:11], label="terminals")
    environ = {}
    if s_text is not None:
        environ["DATAPLICITY_LIMIT_SERVICES"] = s_text
    if t_text is not None:
        environ["DATAPLICITY_LIMIT_TERMINALS"] = t_text
    load(environ)
    env = agent.Env(ex, preempt=False, horizon=4000000)

    def main():
        r = Run(env, ["run"]).start()
        ex.note(s_text, t_text, r.code)
        if not r.runs:
            # a limit that makes no sense may be reported
            env.check(s == "bad" or t == "bad", "ended with %r: %r", r.code, r.err.getvalue())
            env.check(r.code not in (0, None, "returned") and r.err.getvalue().strip() and not env.api.requests, "not reported")
            return
        ns = 500 if s in ("default", "bad") else s
        nt = 100 if t in ("default", "bad") else t
        env.up()
        sv = env.server
        local = kit.Local(env)
        shells = kit.Shells(env)
        # (the large defaults are counted out only once; otherwise: more than any other number in use here)
        full = (s_text, t_text) == (None, None)
        ks = ns + 2 if full or ns < 100 else 20
        kt = nt + 2 if full or nt < 100 else 20
        for i in range(ks):
            env.fresh()
            kit.open_redirect(sv, 1000 + i, 8000)
            env.settle()
        for i in range(kt):
            env.fresh()
            kit.open_term(sv, 5000 + i)
            env.settle()
        env.check(len(local.conns) == min(ks, ns), "services %r: %d of %d were opened", s_text, len(local.conns), ks)
        env.check(len(shells.live) == min(kt, nt), "terminals %r: %d of %d were opened", t_text, len(shells.live), kt)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("combinations", combinations, 0, deep, about="every source of every setting"),
        Family("installation", installation, 0, about="the files of the installation"),
        Family("arguments", arguments, 0, about="arguments"),
        Family("logs", logs, 0, deep, about="where the log goes"),
        Family("limits", limits, 0, deep, about="limits from the environment"),
    ]
