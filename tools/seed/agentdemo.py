"""Help for demonstrations: drive the agent of the current directory by hand.

Works in a scratch directory of its own, which is removed at the end.
"""
import atexit
import io
import json
import os
import shutil
import sys
import tempfile
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

SCRATCH = tempfile.mkdtemp(prefix="agentdemo")
_pid = os.getpid()


def _cleanup():
    if os.getpid() == _pid:
        shutil.rmtree(SCRATCH, True)


atexit.register(_cleanup)
for _name in ("home", "tmp", "remote"):
    os.mkdir(os.path.join(SCRATCH, _name))
os.environ["HOME"] = os.path.join(SCRATCH, "home")
os.environ["TMPDIR"] = os.path.join(SCRATCH, "tmp")
tempfile.tempdir = os.environ["TMPDIR"]
TMP = tempfile.tempdir
REMOTE = os.path.join(SCRATCH, "remote")


def finish(ok, text=""):
    """End the demonstration."""
    print("ok" if ok else "BROKEN", text)
    sys.stdout.flush()
    _cleanup()
    os._exit(0 if ok else 1)


def deadline(seconds):
    """Nothing is expected to take that long."""
    def late():
        finish(False, "no answer within %s s" % seconds)
    timer = threading.Timer(seconds, late)
    timer.daemon = True
    timer.start()


def wait_for(test, timeout=10):
    end = time.time() + timeout
    while time.time() < end:
        if test():
            return True
        time.sleep(0.02)
    return bool(test())


# An independent reading and writing of the wire format
def enc(o):
    if isinstance(o, str):
        o = o.encode("utf-8")
    if isinstance(o, bytes):
        return str(len(o)).encode() + b":" + o
    if isinstance(o, int):
        return b"i" + str(int(o)).encode() + b"e"
    if isinstance(o, (list, tuple)):
        return b"l" + b"".join(enc(i) for i in o) + b"e"
    if isinstance(o, dict):
        items = sorted((k.encode() if isinstance(k, str) else k, v) for k, v in o.items())
        return b"d" + b"".join(enc(k) + enc(v) for k, v in items) + b"e"
    raise TypeError(o)


def dec(b):
    def read(i):
        c = b[i:i + 1]
        if c == b"i":
            j = b.index(b"e", i)
            return int(b[i + 1:j]), j + 1
        if c in (b"l", b"d"):
            items = []
            i += 1
            while b[i:i + 1] != b"e":
                item, i = read(i)
                items.append(item)
            if c == b"d":
                items = dict(zip(items[::2], items[1::2]))
            return items, i + 1
        j = b.index(b":", i)
        n = int(b[i:j])
        data = b[j + 1:j + 1 + n]
        assert len(data) == n, "short string"
        return data, j + 1 + n
    value, end = read(0)
    assert end == len(b), "trailing bytes"
    return value


class Event(object):
    def __init__(self, name, **fields):
        self.name = name
        self.__dict__.update(fields)


class Socket(object):
    """Stands in for the web socket."""

    def __init__(self):
        self.raw = []
        self.fail = None

    def send_binary(self, data):
        if self.fail is not None:
            raise self.fail
        self.raw.append(bytes(data))

    def close(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    @property
    def packets(self):
        return [dec(r) for r in list(self.raw)]


class Agent(object):
    """A manager and its web socket client, with a recorder as the socket."""

    def __init__(self, limit=None):
        from dataplicity.directory_scanner import DirectoryScanner
        from dataplicity.m2mmanager import M2MManager
        from dataplicity.portforward import PortForwardManager
        from dataplicity.remote_directory import RemoteDirectory

        self.scanner = DirectoryScanner(REMOTE)
        self.directory_scanner = self.scanner
        self.remote_directory = RemoteDirectory(REMOTE, self.scanner)
        self.remote_directory.temp_path = TMP
        self.told = []
        self.accept = True
        self.m2m = M2MManager(self, "ws://127.0.0.1:1/", self.remote_directory)
        self.ws = self.m2m.m2m_client
        self.socket = self.ws.websocket = Socket()
        self.port_forward = PortForwardManager.init(self)
        self.m2m.add_terminal("shell", "bash -i")

    # what the manager wants of its client
    def set_m2m_identity(self, identity):
        self.told.append(identity)
        return identity if self.accept else None

    def sync(self):
        pass

    def exit(self):
        pass

    # what the server does
    def event(self, name, **fields):
        self.ws.on_event(Event(name, **fields))

    def packet(self, *fields):
        self.event("binary", data=enc(list(fields)))

    def instruct(self, **data):
        self.packet(16, b"server", data)

    # what it gets
    def sent(self, kind):
        return [p for p in self.socket.packets if p[0] == kind]

    def data(self, channel):
        return b"".join(p[2] for p in self.sent(5) if p[1] == channel)

    def control(self, channel):
        return [json.loads(p[2]) for p in self.sent(22) if p[1] == channel]

    def closes(self, channel):
        return len([p for p in self.sent(11) if p[1] == channel])


def slow(name, delay, threads=True):
    """Let every line of functions called `name` of the agent take a while."""
    def local(frame, event, arg):
        if event == "line":
            time.sleep(delay)
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_name == name and "dataplicity" in frame.f_code.co_filename:
            return local

    threading.settrace(trace)
    sys.settrace(trace)


class Server(object):
    """Stands in for the JSON-RPC server: `answer(call)` gives a result or an exception."""

    def __init__(self, answer=None):
        from dataplicity import jsonrpc
        self.calls = []
        self.batches = []
        self.answer = answer or (lambda call: None)
        self.reorder = lambda responses: responses
        self.down = False
        self.hook = None
        server = self

        def urlopen(url, data=None, *args, **kwargs):
            calls = json.loads(data.decode("utf-8"))
            if server.hook:
                server.hook(calls)
            if server.down:
                raise IOError("unreachable")
            server.batches.append(calls)
            out = []
            for call in calls if isinstance(calls, list) else [calls]:
                server.calls.append(call)
                if "id" not in call:
                    continue
                result = server.answer(call)
                entry = {"jsonrpc": "2.0", "id": call["id"]}
                if isinstance(result, Exception):
                    entry["error"] = {"code": 1, "message": str(result)}
                else:
                    entry["result"] = result
                out.append(entry)
            if not isinstance(calls, list):
                out = out[0] if out else None
            else:
                out = server.reorder(out)
            return io.BytesIO(json.dumps(out).encode("utf-8"))

        jsonrpc.urlopen = urlopen

    def called(self, method):
        return [c["params"] for c in self.calls if c["method"] == method]


def make_client(**kwargs):
    """A client which does not start its web socket thread."""
    from dataplicity import client as module
    from dataplicity.m2m import wsclient
    wsclient.WSClient.start = lambda self: None
    kwargs.setdefault("serial", "serial-1")
    kwargs.setdefault("auth_token", "token-1")
    kwargs.setdefault("remote_directory_path", REMOTE)
    kwargs.setdefault("rpc_url", "http://127.0.0.1:1/")
    kwargs.setdefault("m2m_url", "ws://127.0.0.1:1/")
    return module.Client(**kwargs)
