"""The planted bugs: (id, property, edits, demonstration, needs, what it breaks)."""
S = []


def seed(id, edits, demo, needs, breaks):
    S.append((id, id.split("-")[0].upper(), edits, demo, needs, breaks))


W = "m2m/wsclient.py"
B = "m2m/bencode.py"
PB = "m2m/packetbase.py"
MM = "m2mmanager.py"
CL = "client.py"
PF = "portforward.py"
FS = "m2m/fileservice.py"
CS = "m2m/commandservice.py"
RP = "m2m/remoteprocess.py"
PX = "m2m/proxy.py"
RD = "remote_directory.py"
SD = "scan_directory.py"
DS = "directory_scanner.py"
LI = "limiter.py"
TG = "tags.py"
JR = "jsonrpc.py"
CK = "clockcheck.py"
DM = "device_meta.py"
RPI = "rpi.py"
IP = "iptool.py"

seed(
    "c01-alias",
    [(PB, "if attrib_type is not None and not isinstance(value, attrib_type)", "if attrib_type in (bytes, dict, list) and not isinstance(value, attrib_type)")],
    '''
a = Agent()
# the channel has to be a number
try:
    a.event("binary", data=enc([14, b"seven"]))
except Exception:
    pass
bad = b"seven" in a.ws.channels
a.packet(7, b"hello")
finish(not bad and a.sent(8) == [[8, b"hello"]], "channels %r" % list(a.ws.channels))
''',
    "a packet with a text where a number belongs",
    "a malformed packet is acted on (a channel is opened) instead of being ignored",
)

seed(
    "c02-text",
    [(PB, '''        for k, v in kwargs.items():
            if isinstance(v, text_type):
                v = v.encode("utf-8")''', '''        for k, v in kwargs.items():
            if isinstance(v, text_type):
                v = v.encode("utf-8" if v.isalnum() else "latin-1", "replace")''')],
    '''
from dataplicity.m2m.packets import M2MPacket, PacketType
text = "na\\u00efve caf\\u00e9 \\u2014 \\u043f\\u0443\\u0442\\u044c"
by_name = M2MPacket.create(PacketType.log, text=text).encode_binary()
by_place = M2MPacket.create(PacketType.log, text).encode_binary()
finish(dec(by_name) == [4, text.encode("utf-8")] == dec(by_place), repr(by_name))
''',
    "a text with characters outside of ASCII and with punctuation, given by keyword",
    "the text does not arrive as it was sent",
)

seed(
    "c03-notified",
    [(MM, "            self.notified_identity = self.client.set_m2m_identity(identity)",
          "            self.notified_identity = identity\n            self.client.set_m2m_identity(identity)")],
    '''
a = Agent()
a.accept = False
a.event("ready")
a.packet(9, b"id-1")
a.accept = True
a.event("poll")
a.event("poll")
finish(len(a.told) >= 2 and a.told[-1] == b"id-1", "told %r" % a.told)
''',
    "the first notification of the API server fails",
    "the API server never learns the identity",
)

seed(
    "c03-busy",
    [(W, '        elif event.name == "poll":\n            self.sync_identity()',
         '        elif event.name == "poll" and not self.channels:\n            self.sync_identity()')],
    '''
a = Agent()
a.accept = False
a.event("ready")
a.packet(9, b"id-1")
a.packet(14, 5)
a.accept = True
a.event("poll")
a.event("poll")
finish(a.told[-1:] == [b"id-1"] and len(a.told) >= 2, "told %r" % a.told)
''',
    "a failed notification, and an open channel when it is tried again",
    "the identity is not notified while any channel is open",
)

seed(
    "c04-wide",
    [(W, "        if channel_no not in self.channels:\n            self.channels[channel_no] = Channel(self, channel_no)\n        return self.channels[channel_no]",
         "        if channel_no & 0xFFFF not in self.channels:\n            self.channels[channel_no & 0xFFFF] = Channel(self, channel_no)\n        return self.channels[channel_no & 0xFFFF]")],
    '''
a = Agent()
a.packet(14, 7)
a.packet(14, 65536 + 7)
a.instruct(action="open-echo", port=65536 + 7)
a.packet(6, 65536 + 7, b"high")
a.packet(6, 7, b"low")
finish(a.data(65536 + 7) == b"high" and a.data(7) == b"", "%r %r" % (a.data(65536 + 7), a.data(7)))
''',
    "a channel number above 65535",
    "data of one channel goes to another",
)

seed(
    "c05-reopen",
    [(W, '            channel.on_close()\n            del self.channels[channel_no]',
         '            channel.on_close()\n            if channel.deque or channel._data_callback is not None:\n                del self.channels[channel_no]')],
    '''
a = Agent()
with open(os.path.join(REMOTE, "f"), "wb") as f:
    f.write(b"content")
a.packet(14, 3)
a.packet(19, 3)
a.packet(14, 3)
a.instruct(action="read-file", port=3, path=os.path.join(REMOTE, "f"))
finish(wait_for(lambda: a.data(3) == b"content"), repr(a.data(3)))
''',
    "a channel without data and callbacks is closed and its number used again",
    "the number stays closed: nothing can be sent on the new channel",
)

seed(
    "c06-shared",
    [(W, '''        packet_bytes = packet.encode_binary()
        self.send_bytes(packet_bytes)
''', '''        self._packet_bytes = packet.encode_binary()
        self.send_bytes(self._packet_bytes)
''')],
    '''
deadline(60)
a = Agent()
slow("send", 0.002)
N = 40


def sender(channel):
    for i in range(N):
        a.ws.channel_write(channel, b"%d-%d;" % (channel, i))


threads = [threading.Thread(target=sender, args=(n,)) for n in (1, 2, 3)]
for t in threads:
    t.start()
for t in threads:
    t.join()
ok = all(a.data(c) == b"".join(b"%d-%d;" % (c, i) for i in range(N)) for c in (1, 2, 3))
finish(ok, "%d packets" % len(a.socket.raw))
''',
    "two threads sending, the second one between the encoding and the sending of the first",
    "a packet is sent twice and another one is lost",
)

seed(
    "c07-wakeup",
    [(W, '            if not self.deque:\n                self._data_event.clear()', '        if not self.deque:\n            self._data_event.clear()')],
    '''
deadline(150)
a = Agent()
slow("read", 0.01)
lost = 0
for i in range(60):
    a.packet(14, i)
    c = a.ws.get_channel(i)
    c.on_data(b"first")

    def produce():
        time.sleep(0.004 * i)
        c.on_data(b"second")

    t = threading.Thread(target=produce)
    t.start()
    got = c.read(5, timeout=2, block=True)
    t.join()
    while len(got) < 11:
        more = c.read(100, timeout=0.5, block=True)
        if not more:
            lost += 1
            break
        got += more
finish(not lost, "%d lost" % lost)
''',
    "data arriving just after a reader emptied the channel and before it resets the event",
    "a blocking read does not notice data which is there",
)

seed(
    "c08-same",
    [(W, '        self.send("pong", data=data[:1024])',
         '        if data != getattr(self, "_last_ping", None) or not data:\n            self.send("pong", data=data[:1024])\n        self._last_ping = data')],
    '''
a = Agent()
for data in (b"a", b"b", b"b", b"", b""):
    a.packet(7, data)
finish([p[1] for p in a.sent(8)] == [b"a", b"b", b"b", b"", b""], repr(a.sent(8)))
''',
    "two pings in a row with the same data",
    "a ping is not answered",
)

seed(
    "c09-fork",
    [(RP, '''        try:
            self.spawn(shlex.split(self.command))
        finally:
            self.limiter.decrement()''', '''        try:
            self.spawn(shlex.split(self.command))
        except OSError:
            self.channel.close()
        else:
            self.limiter.decrement()''')],
    '''
from dataplicity.m2m import proxy
a = Agent()


class Pty(object):
    CHILD = 0

    @staticmethod
    def fork():
        raise OSError(11, "no more processes")


proxy.pty = Pty
a.packet(14, 1)
a.instruct(action="open-terminal", port=1, name="shell")
finish(wait_for(lambda: a.m2m.terminals_limiter._value == 0, 5), repr(a.m2m.terminals_limiter))
''',
    "the system is out of processes when a terminal is opened",
    "the terminal keeps its place among the limited number of terminals for ever",
)

seed(
    "c09-gone",
    [(CS, '''        finally:
            self.limiter.decrement()''', '''        finally:
            if not channel.is_closed or channel.size == 0 and channel in self._gone:
                self.limiter.decrement()'''),
     (CS, '        self.limiter = limiter\n', '        self.limiter = limiter\n        self._gone = ()\n')],
    '''
a = Agent()
a.packet(14, 1)
a.instruct(action="run-command", port=1, command="sleep 2")
time.sleep(0.5)
a.packet(19, 1)
finish(wait_for(lambda: a.m2m.services_limiter._value == 0, 8), repr(a.m2m.services_limiter))
''',
    "the channel of a command is closed by the other side before the command is done",
    "the service keeps its place among the limited number of services for ever",
)

seed(
    "c10-partial",
    [(PF, "self.socket.sendall(chunk)", "self.socket.send(chunk)")],
    '''
import socket
from dataplicity.limiter import Limiter
deadline(60)
listener = socket.socket()
listener.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
listener.bind(("127.0.0.1", 0))
listener.listen(1)
a = Agent()
a.port_forward.add_service("demo", listener.getsockname()[1])
got = []


def serve():
    s, _ = listener.accept()
    time.sleep(1)
    while True:
        data = s.recv(65536)
        if not data:
            break
        got.append(data)


t = threading.Thread(target=serve)
t.start()
a.packet(14, 1)
a.instruct(action="open-portforward", service="demo", route=[b"n1", 9, b"n2", 1])
big = os.urandom(1 << 20) * 24
a.packet(6, 1, big)
a.packet(6, 1, b"end")
a.packet(19, 1)
t.join(30)
finish(b"".join(got) == big + b"end", "%d of %d bytes" % (sum(map(len, got)), len(big) + 3))
''',
    "more data than the socket takes at once",
    "the rest of the data is lost",
)

seed(
    "c10-last",
    [(PF, "                    if event_mask & readable_events:\n                        try:\n                            # Reads",
          "                    if event_mask & readable_events and not event_mask & error_events:\n                        try:\n                            # Reads")],
    '''
import socket
deadline(60)
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen(1)
a = Agent()
a.port_forward.add_service("demo", listener.getsockname()[1])
a.packet(14, 1)
a.instruct(action="open-portforward", service="demo", route=[b"n1", 9, b"n2", 1])
s, _ = listener.accept()
time.sleep(0.2)
write = a.socket.send_binary
a.socket.send_binary = lambda data: (write(data), time.sleep(0.5))
s.sendall(b"head")
time.sleep(0.2)
# The last data is there when both directions are shut
s.sendall(b"tail")
a.packet(19, 2)
s.shutdown(socket.SHUT_WR)
channel = a.ws.get_channel(1)
conn = [t for t in threading.enumerate() if t.__class__.__name__ == "Connection"]
for c in conn:
    c.socket.shutdown(socket.SHUT_WR)
wait_for(lambda: not any(c.is_alive() for c in conn), 15)
finish(a.data(1) == b"headtail", repr(a.data(1)))
''',
    "the connection is hung up while its last data was not read yet",
    "the last data of the local server is lost",
)

seed(
    "c11-linger",
    [(PF, '''                if self.channel.is_closed:
                    break
                for _file''', '''                if self.channel.is_closed and not poll_result:
                    break
                for _file''')],
    '''
import socket
deadline(60)
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen(1)
a = Agent()
a.port_forward.add_service("demo", listener.getsockname()[1])
a.packet(14, 1)
a.instruct(action="open-portforward", service="demo", route=[b"n1", 9, b"n2", 1])
s, _ = listener.accept()
time.sleep(0.2)
a.packet(19, 1)
end = time.time() + 12
over = False
# the server keeps talking
try:
    while time.time() < end:
        s.sendall(b"tick")
        time.sleep(0.2)
        if not any(t.__class__.__name__ == "Connection" for t in threading.enumerate()):
            over = True
            break
except (IOError, OSError):
    over = True
finish(over, "connection %s" % ("ended" if over else "goes on"))
''',
    "the channel is closed while the local server goes on sending",
    "the connection is never ended and goes on using a place among the services",
)

seed(
    "c12-case",
    [(PF, "return self._services.get(service, default)", "return self._services.get(service.strip().lower(), default)")],
    '''
import socket
deadline(60)
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen(1)
listener.settimeout(2)
a = Agent()
a.port_forward.add_service("demo", listener.getsockname()[1])
a.packet(14, 1)
a.instruct(action="open-portforward", service="DEMO ", route=[b"n1", 9, b"n2", 1])
try:
    listener.accept()
    finish(False, "connected for an unknown service")
except socket.timeout:
    finish(True)
''',
    "a service name which differs from a known one in case or blanks",
    "a connection is made for a service that does not exist",
)

seed(
    "c13-late",
    [(FS, "        except IOError as error:\n            self.send_error(", "        except IOError as error:\n            if not bytes_sent:\n              self.send_error(")],
    '''
import io as _io
from dataplicity.m2m import fileservice
a = Agent()


class Bad(object):
    def __init__(self, path, mode):
        self.n = 0

    def read(self, size=-1):
        self.n += 1
        if self.n > 1:
            raise IOError(5, "input/output error")
        return b"part"

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


fileservice.open = Bad
a.packet(14, 2)
a.instruct(action="read-file", port=2, path="/x")
wait_for(lambda: a.closes(2))
finish(a.data(2) == b"part" and [c["type"] for c in a.control(2)] == ["error"], repr(a.control(2)))
''',
    "reading fails in the middle of a file",
    "a part of the file looks like the complete file",
)

seed(
    "c14-stderr",
    [(CS, '''                            chunk = os.read(stderr_fh, CHUNK_SIZE)
                            log.debug("%r [stderr] %r", self, chunk)''', '''                            chunk = os.read(stderr_fh, CHUNK_SIZE)
                            log.debug("%r stderr %r", self, chunk)
                            if not chunk:
                                more_data = False
                                break''')],
    '''
a = Agent()
a.packet(14, 1)
# pipes at their end report a hang up; sockets report data
import subprocess, socket
from dataplicity.m2m import commandservice


class Process(object):
    def __init__(self, *args, **kwargs):
        self.a, self.b = socket.socketpair()
        self.c, self.d = socket.socketpair()
        self.stdout, self.stderr = self.a, self.c
        self.code = None
        self.d.close()

        def run():
            time.sleep(0.5)
            self.b.sendall(b"output")
            self.b.close()
            self.code = 0
        threading.Thread(target=run).start()

    def poll(self):
        return self.code

    def kill(self):
        pass

    def wait(self, *args):
        pass


class Sub(object):
    PIPE = subprocess.PIPE
    Popen = Process


commandservice.subprocess = Sub
a.instruct(action="run-command", port=1, command="x")
wait_for(lambda: a.closes(1))
finish(a.data(1) == b"output", repr(a.data(1)))
''',
    "a command which closes its error output before its output",
    "the output after that is lost",
)

seed(
    "c15-other",
    [(RP, "pid, exit_code = os.waitpid(self.pid, os.WNOHANG)", "pid, exit_code = os.waitpid(-1, os.WNOHANG)")],
    '''
from dataplicity.m2m import remoteprocess
import signal


class Time(object):
    now = 0.0

    def sleep(self, n):
        self.now += n

    def time(self):
        return self.now


class Os(object):
    """Process 7 ignores the hang up; process 8 is another child which ends."""
    WNOHANG = 1
    other = False
    killed = []

    def waitpid(self, pid, flags):
        if 7 in self.killed and pid in (7, -1):
            return 7, 9
        if pid in (8, -1) and not self.other:
            self.other = True
            return 8, 0
        return 0, 0

    def kill(self, pid, sig):
        if sig == signal.SIGKILL:
            self.killed.append(pid)

    def WIFEXITED(self, status):
        return status & 127 == 0


remoteprocess.time = Time()
remoteprocess.os = Os()
remoteprocess.PidWaitThread("bash -i", 7).run()
finish(Os.killed == [7] and not remoteprocess.os.other, "killed %r" % Os.killed)
''',
    "another child ends while a terminal which ignores SIGHUP is closed",
    "the exit of the other child is taken for that of the terminal, which is never killed",
)

seed(
    "c15-signalled",
    [(RP, '''            if pid:
                # The process''', '''            if pid and not sent_kill:
                # The process''')],
    '''
from dataplicity.m2m import remoteprocess
import signal


class Time(object):
    now = 0.0

    def sleep(self, n):
        self.now += n

    def time(self):
        return self.now


class Os(object):
    WNOHANG = 1
    killed = []
    waited = 0

    def waitpid(self, pid, flags):
        if self.killed:
            self.waited += 1
            if self.waited > 1:
                raise OSError(10, "no child")
            return 7, 9
        return 0, 0

    def kill(self, pid, sig):
        self.killed.append((pid, sig))


remoteprocess.time = Time()
remoteprocess.os = Os()
try:
    remoteprocess.PidWaitThread("bash -i", 7).run()
    finish(remoteprocess.os.waited == 1)
except OSError:
    finish(False, "waits for a process that is gone")
''',
    "a terminal which ignores SIGHUP and has to be killed",
    "the wait goes on (and fails, or waits for another process) after the process was reaped",
)

seed(
    "c16-partial",
    [(PX, '''        while data:
            n = os.write(master_fd, data)
            data = data[n:]''', '''        n = os.write(master_fd, data)
        if n < len(data):
            os.write(master_fd, data[n:])''')],
    '''
from dataplicity.m2m import proxy


class Os(object):
    out = b""

    def write(self, fd, data):
        Os.out += data[:1000]
        return min(len(data), 1000)


proxy.os = Os()
i = proxy.Interceptor()
i.master_fd = 3
i.write_master(b"0123456789" * 350)
finish(Os.out == b"0123456789" * 350, "%d bytes" % len(Os.out))
''',
    "a paste so long that the pseudo terminal takes it in more than two pieces",
    "input is lost",
)

seed(
    "c16-size",
    [(PX, '''        self.size = size
        if self.master_fd is not None:
            self._set_pty_size()''', '''        if self.master_fd is not None:
            self.size = size
            self._set_pty_size()''')],
    '''
from dataplicity.m2m import remoteprocess, proxy
from dataplicity.limiter import Limiter
a = Agent()
a.packet(14, 1)
sizes = []


class Fcntl(object):
    def ioctl(self, fd, what, buf):
        sizes.append(list(buf)[:2])


proxy.fcntl = Fcntl()
p = remoteprocess.RemoteProcess(Limiter("x", 1), "bash -i", a.ws.get_channel(1), size=[80, 24])
a.packet(21, 1, json.dumps({"type": "window_resize", "size": [132, 50]}))
p.master_fd = 9
p._set_pty_size()
finish(sizes == [[50, 132]], repr(sizes))
''',
    "a resize which arrives before the terminal was launched",
    "the terminal keeps the old size",
)

seed(
    "c17-cmd",
    [(MM, '                    value.decode("utf-8", "ignore")\n                    if', '                    value.decode("utf-8", "ignore").strip()\n                    if')],
    '''
a = Agent()
path = os.path.join(REMOTE, "name ")
with open(path, "wb") as f:
    f.write(b"content")
a.packet(14, 2)
a.instruct(action="read-file", port=2, path=path)
wait_for(lambda: a.closes(2))
finish(a.data(2) == b"content", repr(a.control(2)))
''',
    "an instruction with a value that ends in blanks",
    "another file (or command) is used than the one asked for",
)

seed(
    "c18-stale",
    [(RD, "            shutil.copyfile(file_path, snapshot_path)\n", '''            if not os.path.exists(snapshot_path) or os.path.getmtime(
                snapshot_path
            ) < os.path.getmtime(file_path):
                shutil.copyfile(file_path, snapshot_path)
''')],
    '''
a = Agent()
for name in ("one", "two"):
    with open(os.path.join(REMOTE, name), "wb") as f:
        f.write(name.encode())
    os.utime(os.path.join(REMOTE, name), (1000, 1000))
a.packet(24, b"up", b"/one")
a.packet(24, b"up", b"/two")
a.packet(27, b"up", 0, 100)
finish(a.sent(28)[-1][4] == b"two", repr(a.sent(28)))
''',
    "an upload id which is used again for another file without being closed",
    "the data of the first file is served as that of the second",
)

seed(
    "c19-backref",
    [(RD, '    return ".." not in path.split(os.sep)', '    return "/../" not in path + os.sep and not path.startswith("../") or path.endswith("...")')],
    '''
a = Agent()
with open(os.path.join(SCRATCH, "..."), "wb") as f:
    f.write(b"secret")
a.packet(24, b"up", b"../...")
r = a.sent(25)[-1]
finish(r[3] == 1, repr(r))
''',
    "a path that leads out of the directory and whose last name ends in three dots",
    "a file outside of the remote directory is served",
)

seed(
    "c20-offset",
    [(RD, '''                    download_file.seek(offset)
                    download_file.write(data)''', '''                    download_file.seek(0, 2)
                    if offset < download_file.tell():
                        download_file.seek(offset)
                    download_file.write(data)''')],
    '''
a = Agent()
a.packet(31, b"id", b"f", b"", 0, b"", 0)
path = a.sent(32)[-1][4]
a.packet(31, b"id", b"f", path, 4, b"5678", 0)
a.packet(31, b"id", b"f", path, 0, b"1234", 1)
with open(os.path.join(REMOTE, "f"), "rb") as f:
    got = f.read()
finish(got == b"12345678", repr(got))
''',
    "chunks which arrive out of order, leaving a gap",
    "the content of the file is wrong although every chunk was acknowledged",
)

seed(
    "c20-dir",
    [(RD, "        if not os.path.isdir(dirname):\n            dirname = self.path", "        if not os.path.exists(dirname):\n            dirname = self.path")],
    '''
a = Agent()
with open(os.path.join(REMOTE, "d"), "wb") as f:
    f.write(b"a file")
a.packet(31, b"id", b"d/f", b"", 0, b"new", 1)
finish(a.sent(32)[-1][5] == 0 and open(os.path.join(REMOTE, "f"), "rb").read() == b"new", repr(a.sent(32)))
''',
    "a path whose directory part is a file",
    "the file is not stored",
)

seed(
    "c21-size",
    [(RD, '''                offset=offset,
                size=size,
                data=data,''', '''                offset=offset,
                size=len(data),
                data=data,''')],
    '''
a = Agent()
with open(os.path.join(REMOTE, "f"), "wb") as f:
    f.write(b"12345")
a.packet(24, b"up", b"f")
a.packet(27, b"up", 3, 100)
r = a.sent(28)[-1]
finish(r == [28, b"up", 3, 100, b"45", 0, b""], repr(r))
''',
    "a read which reaches past the end of the file",
    "the answer does not repeat the request, so that it can not be matched to it",
)

seed(
    "c22-dots",
    [(SD, '        if dir_entry.name.startswith("."):', '        if dir_entry.name.strip(".").startswith(".") or dir_entry.name.rstrip(".")[:1] == "." and not dir_entry.name.startswith(".."):')],
    '''
from dataplicity.scan_directory import scan_directory
for name in ("..hidden", ".hidden", "shown"):
    with open(os.path.join(REMOTE, name), "wb"):
        pass
found = scan_directory(REMOTE, file_sizes=True)["directories"]
finish(found == {"": {"files": [("shown", 0)]}}, repr(found))
''',
    "a hidden file whose name starts with two dots",
    "a hidden file is listed",
)

seed(
    "c23-swap",
    [(DS, """                directory = scan_directory(self.root_path, file_sizes=file_sizes)
""", """                directory = getattr(self, "_last", None)
                if directory is None or directory["time"] < start_time - 0.25:
                    directory = scan_directory(self.root_path, file_sizes=file_sizes)
                self._last = directory
""")],
    '''
from dataplicity import directory_scanner
d = directory_scanner.DirectoryScanner(REMOTE)
done = []
d.perform_scan(on_success=lambda: done.append(1))
wait_for(lambda: done)
with open(os.path.join(REMOTE, "new"), "wb"):
    pass
d.perform_scan(on_success=lambda: done.append(1))
wait_for(lambda: len(done) == 2)
with open(os.path.join(TMP, "__dataplicity_remote_directory_scan___.json")) as f:
    got = json.load(f)["directories"]
finish(got == {"": {"files": [["new", 0]]}}, repr(got))
''',
    "two scans in quick succession, with a change in between",
    "the second scan reports the old content as the outcome",
)

seed(
    "c24-sent",
    [(CL, '                batch.get_result("authenticate_result")\n                self._check_meta(batch)',
          '                try:\n                    batch.get_result("authenticate_result")\n                except jsonrpc.JSONRPCError:\n                    self._sent_meta = self._tag_list is not None\n                    raise\n                self._check_meta(batch)')],
    '''
s = Server()
bad = [True]


def answer(call):
    if bad[0] and call["method"] == "device.check_auth" and "sync_id" in call["params"]:
        return ValueError("bad token")


s.answer = answer
c = make_client()
s.hook = None
c.poll()
bad[0] = False
n = len(s.called("device.set_agent_version"))
c.poll()
finish(len(s.called("device.set_agent_version")) == n + 1, "%d" % n)
''',
    "the authentication of the first sync is refused after tags were sent",
    "the device information is never sent again",
)

seed(
    "c25-early",
    [(CL, '                log.debug("new machine tags: %r", tag_list)\n', '                log.debug("new machine tags: %r", tag_list)\n                self._tag_list = self._tag_list and tag_list\n'),
     (CL, "            if tag_list != self._tag_list:\n", "            if self._tag_list is None or tag_list != self._tag_list:\n")],
    '''
s = Server()
path = os.path.join(os.environ["HOME"], "dataplicity_tags")


def tags(text):
    with open(path, "w") as f:
        f.write("#!/bin/sh\\necho %s\\n" % text)
    os.chmod(path, 0o755)


c = make_client()
tags("one")
c.tag_poll()
tags("two")
s.down = True
c.tag_poll()
s.down = False
c.tag_poll()
got = [p["tag_list"] for p in s.called("device.set_machine_defined_tags")]
finish(got == [["one"], ["two"]], repr(got))
''',
    "the server can not be reached when the tags change for a second time",
    "the new tags are never sent",
)

seed(
    "c26-order",
    [(JR, '        self.errors = {r["id"]: r["error"] for r in response if "error" in r}\n',
          '        self.errors = {\n            c.get("id"): r["error"]\n            for c, r in zip(self.calls, response)\n            if "error" in r\n        }\n')],
    '''
from dataplicity import jsonrpc
s = Server(lambda call: ValueError("bad") if call["method"] == "b" else 5)
s.reorder = lambda responses: responses[::-1]
r = jsonrpc.JSONRPC("http://127.0.0.1:1/")
with r.batch() as batch:
    batch.call_with_id("x", "a")
    batch.call_with_id("y", "b")
got = []
for k in ("x", "y"):
    try:
        got.append(batch.get_result(k))
    except Exception as e:
        got.append(type(e).__name__)
finish(got == [5, "RemoteMethodError"], repr(got))
''',
    "a server which answers the calls of a batch in another order",
    "an error is not reported for the call that failed",
)

seed(
    "c27-drift",
    [(CL, "self.next_disk_poll_time = now + self.disk_poll_rate_seconds", "self.next_disk_poll_time += self.disk_poll_rate_seconds")],
    '''
from dataplicity import client as module
s = Server()


class Time(object):
    now = 1000.0

    def time(self):
        return self.now


clock = module.time = Time()
c = make_client()
c.disk_poll()
# the device sleeps for a day, less than what restarts it is not needed for this
clock.now += 86400
for _ in range(10):
    c.disk_poll()
    clock.now += 60
finish(len(s.called("device.set_disk_space")) == 2, "%d reports" % len(s.called("device.set_disk_space")))
''',
    "a long time between two polls",
    "the disk usage is reported on every poll until the missed reports were made up for",
)

seed(
    "c28-sum",
    [(CK, "            if elapsed > MAX_CLOCK_DISCREPANCY:", "            if elapsed > MAX_CLOCK_DISCREPANCY and self.running:\n                self.running = elapsed < 2 * MAX_CLOCK_DISCREPANCY\n            if elapsed > MAX_CLOCK_DISCREPANCY and self.running:")],
    '''
from dataplicity import clockcheck
fired = []


class Stop(Exception):
    pass


state = {"now": 0.0, "n": 0}


def sleep(n):
    state["n"] += 1
    state["now"] += n
    if state["n"] == 3:
        state["now"] += 100000.0
    if state["n"] > 6:
        raise Stop


clockcheck.sleep = sleep
clockcheck.time = lambda: state["now"]
t = clockcheck.ClockCheckThread()
t.on_fail = lambda: fired.append(state["now"])
try:
    t.run()
except Stop:
    pass
finish(len(fired) == 1, repr(fired))
''',
    "a clock which is set forward by more than six minutes",
    "the agent is not restarted",
)

seed(
    "c29-query",
    [(CL, '        if "?" not in self.m2m_url:', '        if not m2m_url or "?" not in self.m2m_url and self.m2m_url.endswith("/"):')],
    '''
c = make_client(m2m_url="ws://127.0.0.1:1/m2m")
features = set(c.m2m_url.partition("?features=")[2].split(","))
finish(features == {"scan", "downloads"}, c.m2m_url)
''',
    "an m2m URL without a slash at its end",
    "the server is not told the features of the agent",
)

seed(
    "c30-idle",
    [(W, "        self.clear_callbacks()\n        self.hard_close_channels()", "        if self.channels:\n            self.clear_callbacks()\n        self.hard_close_channels()")],
    '''
a = Agent()
got = []
a.ws.add_callback(5, got.append)
a.event("disconnected")
finish(got == [None], repr(got))
''',
    "a connection which is lost while a command is outstanding and no channel is open",
    "the one who waits for the command is never told",
)

seed(
    "c31-colon",
    [(RPI, 'key, _, value = line.partition(b":")', 'key, _, value = line.rpartition(b":")')],
    '''
import io
from dataplicity import rpi
rpi.open = lambda path, mode: io.BytesIO(b"Hardware: BCM\\nRevision\\t: 00:a02082\\n")
finish(rpi.get_machine_revision() == "00:a02082", rpi.get_machine_revision())
''',
    "a revision with a colon in it",
    "another revision is reported",
)

seed(
    "c31-names",
    [(DM, "return [i[1] for i in interfaces]", "return list(dict(interfaces).values())")],
    '''
from dataplicity import device_meta
device_meta.get_all_interfaces = lambda: [("eth0", "10.0.0.1"), ("eth0", "10.0.0.2"), ("lo", "127.0.0.1")]
finish(device_meta.get_ip_address_list() == ["10.0.0.1", "10.0.0.2", "127.0.0.1"])
''',
    "an interface with two addresses",
    "one of the addresses is not reported",
)

seed(
    "c09-check",
    [(LI, """        with self._lock:
            if self._value >= self._limit:
                log.warning("%r reached limit", self)
                raise LimitReached(
                    "{} limit ({}) reached".format(self.name, self._limit)
                )
            self._value += 1
""", """        if self._value >= self._limit:
            log.warning("%r reached limit", self)
            raise LimitReached("{} limit ({}) reached".format(self.name, self._limit))
        with self._lock:
            self._value += 1
""")],
    '''
from dataplicity.limiter import Limiter, LimitReached
limiter = Limiter("services", 1)
real = limiter._lock
first = [True]


class Late(object):
    """Somebody else was here just before."""
    def __enter__(self):
        if first:
            first.pop()
            limiter.increment()
        return real.__enter__()

    def __exit__(self, *args):
        return real.__exit__(*args)


limiter._lock = Late()
try:
    limiter.increment()
    refused = False
except LimitReached:
    refused = True
finish(refused, "%r" % limiter)
''',
    "two requests for the last place at the same time",
    "more services run than the limit allows",
)

seed(
    "c18-link",
    [(RD, "            shutil.copyfile(file_path, snapshot_path)\n", """            if os.path.islink(file_path):
                os.symlink(os.path.realpath(file_path), snapshot_path)
            else:
                shutil.copyfile(file_path, snapshot_path)
""")],
    '''
a = Agent()
with open(os.path.join(REMOTE, "log.1"), "wb") as f:
    f.write(b"first day")
os.symlink("log.1", os.path.join(REMOTE, "log"))
a.packet(24, b"up", b"log")
with open(os.path.join(REMOTE, "log.1"), "wb") as f:
    f.write(b"another")
a.packet(27, b"up", 0, 100)
finish(a.sent(28)[-1][4] == b"first day", repr(a.sent(28)))
''',
    "a file that is a symbolic link and changes after it was opened",
    "reads give the changed file instead of the snapshot",
)

seed(
    "c17-again",
    [(MM, '        action = data["action"]\n', '''        action = data.get("action")
        if (sender, data) == getattr(self, "_last_instruction", None):
            # Sent twice
            return
        self._last_instruction = sender, data
''')],
    '''
a = Agent()
synced = []
a.sync = lambda: synced.append(1)
a.instruct(action="sync")
a.instruct(action="sync")
time.sleep(0.2)
one = len(synced)
path = os.path.join(REMOTE, "f")
with open(path, "wb") as f:
    f.write(b"content")
for i in range(2):
    a.packet(14, 2)
    a.instruct(action="read-file", port=2, path=path)
    wait_for(lambda: a.closes(2) > i, 3)
    a.packet(19, 2)
finish(a.data(2) == b"contentcontent", repr(a.data(2)))
''',
    "the same instruction twice in a row",
    "the second one is not carried out",
)

seed(
    "c20-ext",
    [(RD, '        basename, ext = os.path.splitext(filename)\n', '        basename, _, ext = filename.partition(".")\n        ext = ext and "." + ext\n')],
    '''
a = Agent()
for n in ("backup.tar.gz", ".profile"):
    with open(os.path.join(REMOTE, n), "wb") as f:
        f.write(b"old")
    a.packet(31, b"id", n.encode(), b"", 0, b"new", 1)
got = sorted(os.listdir(REMOTE))
finish(got == [".profile", ".profile(1)", "backup.tar(1).gz", "backup.tar.gz"], repr(got))
''',
    "a taken name with more than one dot",
    "the file is stored under another name than the documented variant",
)

seed(
    "c12-redirects",
    [(PF, """        channel = self.m2m.m2m_client.get_channel(m2m_port)
        try:
            with limiter():
                Connection(""", """        client = self.m2m.m2m_client
        channel = client.get_channel(m2m_port)
        device_port = self._redirects.setdefault(m2m_port, device_port)
        try:
            with limiter():
                Connection("""),
     (PF, "        self._ports = {}\n", "        self._ports = {}\n        self._redirects = {}\n")],
    '''
import socket
deadline(60)
listeners = []
for i in range(2):
    listener = socket.socket()
    listener.bind(("127.0.0.1", 0))
    listener.listen(5)
    listener.settimeout(5)
    listeners.append(listener)
a = Agent()
for listener in listeners:
    a.packet(14, 3)
    a.instruct(action="open-portredirect", device_port=listener.getsockname()[1], m2m_port=3)
    try:
        conn, _ = listener.accept()
    except socket.timeout:
        finish(False, "connected to another port")
    a.packet(19, 3)
    conn.close()
    time.sleep(0.3)
finish(True)
''',
    "a channel number that is used for two redirects, one after the other",
    "the second one connects to the port of the first",
)

seed(
    "c02-big",
    [(B, '        size = int(size_bytes)\n', '        size = int(size_bytes, 10)\n        if size >= 1 << 22:\n            raise DecodeError("string too long")\n')],
    '''
a = Agent()
from dataplicity.m2m import bencode
data = b"x" * (5 << 20)
try:
    ok = bencode.decode(bencode.encode([5, 1, data])) == [5, 1, data]
except Exception as error:
    finish(False, repr(error))
finish(ok)
''',
    "a string of more than 4 MB",
    "it is refused although it is well-formed",
)

seed(
    "c32-prune",
    [(MM, "            process for process in self.processes if not process.is_closed\n",
      "            process\n            for process in self.processes\n            if process.pid is None or not process.is_closed\n")],
    '''
import gc
from dataplicity.m2m import proxy, remoteprocess
deadline(60)


def no_fork():
    raise OSError(11, "Resource temporarily unavailable")


proxy.pty.fork = no_fork
a = Agent()
for i in range(30):
    a.packet(14, 3)
    a.instruct(action="open-terminal", name="shell", port=3)
    time.sleep(0.05)
    a.packet(19, 3)
time.sleep(0.5)
gc.collect()
left = sum(isinstance(o, remoteprocess.RemoteProcess) for o in gc.get_objects())
finish(left < 10, "%d terminals that never started are kept" % left)
''',
    "terminals whose process can not be started (no more processes), again and again",
    "every terminal that failed to start is remembered for ever",
)

seed(
    "c32-refused",
    [(PF, """                    connection = Connection(
                        limiter, self.close_event, channel, self.host_port
                    )
""", """                    connection = Connection(
                        limiter, self.close_event, channel, self.host_port
                    )
                    self._connections[:] = [
                        other
                        for other in self._connections
                        if other.socket is None or not other.channel.is_closed
                    ]
                    self._connections.append(connection)
"""), (PF, """        self.m2m_port = None
        self._connect_index = 0
""", """        self.m2m_port = None
        self._connections = []  # Those in use, for diagnostics
""")],
    '''
import gc
import socket
from dataplicity import portforward
deadline(60)
s = socket.socket()
s.bind(("127.0.0.1", 0))
port = s.getsockname()[1]
s.close()
a = Agent()
a.port_forward.add_service("closed", port)
for i in range(30):
    a.packet(14, 3)
    a.instruct(action="open-portforward", service="closed", route=["n", 1, "n", 3])
    wait_for(lambda: a.closes(3) > i, 5)
    a.packet(19, 3)
time.sleep(0.5)
gc.collect()
left = sum(isinstance(o, portforward.Connection) for o in gc.get_objects())
finish(left < 10, "%d refused connections are kept" % left)
''',
    "forwards to a service that refuses the connection, again and again",
    "every refused connection is remembered for ever",
)

seed(
    "c33-unreachable",
    [(JR, "            raise ServerUnreachableError(self.url, e)\n", '            raise ServerUnreachableError(self.url, "%s, request was %r" % (e, call))\n')],
    '''
import logging
deadline(60)
text = io.StringIO()
logging.basicConfig(stream=text, level=logging.DEBUG)
server = Server()
c = make_client(auth_token="c0nfidential")
server.down = True
c.sync()
c.tag_poll()
c.set_m2m_identity(b"node")
finish("c0nfidential" not in text.getvalue(), "the log has the token")
''',
    "the web API can not be reached",
    "the authentication token is written to the log",
)

seed(
    "c33-init",
    [(CL, '            log.exception("failed to initialize client")\n', '            log.exception("failed to initialize client %r", vars(self))\n')],
    '''
import logging
from dataplicity import client as module
deadline(60)
text = io.StringIO()
logging.basicConfig(stream=text, level=logging.DEBUG)


def broken(*args, **kwargs):
    raise RuntimeError("can't start new thread")


module.M2MManager.init = broken
try:
    make_client(auth_token="c0nfidential")
except RuntimeError:
    pass
finish("c0nfidential" not in text.getvalue(), "the log has the token")
''',
    "the agent fails to start after its token was read (no thread for the M2M connection, say)",
    "the authentication token is written to the log",
)

seed(
    "c34-quiet",
    [(W, '''        elif event.name == "poll":
            self.sync_identity()
''', '''        elif event.name == "poll" and time.time() - self.last_packet_time < 100.0:
            self.sync_identity()
        elif event.name == "poll":
            # Nothing was heard for a long time
            self.last_packet_time = time.time()
            self.websocket.close()
''')],
    '''
deadline(60)
a = Agent()
closed = []
a.socket.close = lambda *args, **kwargs: closed.append(args)
real, start = time.time, time.time()
now = [start]
time.time = lambda: now[0]
a.packet(14, 3)
for i in range(100):
    # every 30 s the server answers a ping of the web socket; there are no messages
    for name in ("poll", "poll", "pong", "poll"):
        now[0] += 7.5
        a.event(name, data=b"")
time.time = real
finish(not closed, "closed %d times" % len(closed))
''',
    "a server that answers pings but has nothing to say for minutes",
    "a working connection is closed for being quiet",
)

seed(
    "c34-limit",
    [("constants.py", "MAX_TIME_SINCE_LAST_PACKET = 100.0", "MAX_TIME_SINCE_LAST_PACKET = 100.0 * 60")],
    '''
import base64
import hashlib
import socket
deadline(100)
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen(5)
real, start = time.time, time.time()
time.time = lambda: start + (real() - start) * 40
accepted = []


def serve():
    while True:
        conn = listener.accept()[0]
        head = b""
        while b"\\r\\n\\r\\n" not in head:
            head += conn.recv(4096)
        key = [l.split(b":", 1)[1].strip() for l in head.split(b"\\r\\n") if l.lower().startswith(b"sec-websocket-key")][0]
        digest = base64.b64encode(hashlib.sha1(key + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest())
        conn.sendall(b"HTTP/1.1 101 Switching Protocols\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Accept: " + digest + b"\\r\\n\\r\\n")
        # nothing more is ever said on this connection
        accepted.append(conn)


thread = threading.Thread(target=serve)
thread.daemon = True
thread.start()
from dataplicity.m2m.wsclient import WSClient


class Manager(object):
    def set_identity(self, identity):
        pass


client = WSClient(Manager(), "ws://127.0.0.1:%d/" % listener.getsockname()[1], None)
client.start()
end = real() + 60
while len(accepted) < 2 and real() < end:
    time.sleep(0.1)
finish(len(accepted) >= 2, "%d connections" % len(accepted))
''',
    "a connection that is half open",
    "a connection on which the server is silent is kept for hours",
)

seed(
    "c35-retry",
    [(JR, '''        except Exception as e:
            raise ServerUnreachableError(self.url, e)
        log.debug(response_json[:1000])
''', '''        except Exception as e:
            if "timed out" not in str(e):
                raise ServerUnreachableError(self.url, e)
            # The server is only busy
            return self._send(call)
        log.debug(response_json[:1000])
''')],
    '''
import socket
deadline(60)
server = Server()
c = make_client()
seen = []


def hook(calls):
    seen.append(calls)
    if len(seen) > 40:
        finish(False, "requested again and again")
    raise socket.timeout("timed out")


server.hook = hook
c.tag_poll()
finish(True, "%d requests" % len(seen))
''',
    "the web API takes requests and never answers",
    "the request is made for ever, and the polling stops",
)

seed(
    "c36-graceful",
    [(W, '''        elif event.name == "disconnected":
            self.on_disconnected()''', '''        elif event.name == "disconnected" and not event.graceful:
            self.on_disconnected()''')],
    '''
deadline(60)
a = Agent()
a.event("ready")
a.packet(9, b"node-1")
a.packet(14, 3)
a.event("disconnected", graceful=True)
a.event("ready")
first = [p[0] for p in a.socket.packets if p[0] in (1, 2)]
finish(first == [1, 1], "identified or joined: %r" % first)
''',
    "a connection that is ended with a close frame",
    "what belongs to the old connection is taken over to the new one, which is not joined",
)

seed(
    "c14-stderr",
    [(CS, '''        poll.register(stderr_fh, events)
''', '''        poll.register(stderr_fh, error_events)
''')],
    '''
deadline(60)
a = Agent()
a.packet(14, 5)
a.instruct(action="run-command", port=5, command="head -c 400000 /dev/zero >&2; echo done")
ended = wait_for(lambda: a.closes(5), 20)
finish(ended and a.data(5) == b"done\\n" and a.control(5)[-1]["returncode"] == 0, "ended %r, output %r, %r" % (ended, a.data(5), a.control(5)))
''',
    "a command which writes more error output than a pipe holds",
    "the command hangs for ever; its output and end are never reported",
)
