"""C31: device details describe this device and never stop the agent."""
import importlib
import io
import itertools
import platform

from .. import agent, core, vfs
from ..main import Family
from .c24 import META, answer, is_sync

CPU, MODEL, OSREL = "/proc/cpuinfo", "/proc/device-tree/model", "/etc/os-release"
GOOD_CPU = b"processor\t: 0\nmodel name\t: ARMv7 rev 4\n\nHardware\t: BCM2835\nRevision\t: a02082\nSerial\t\t: 00000000abcdef\n"
GOOD_MODEL = b"Raspberry Pi 3 Model B Rev 1.2"
GOOD_OS = b'NAME="Raspbian GNU/Linux"\nVERSION_ID="9"\nVERSION="9 (stretch)"\nID=raspbian\n'
GOOD_IF = [(b"lo", "127.0.0.1"), (b"eth0", "10.0.2.15")]


class BadFile(io.RawIOBase):
    """Opens, but can not be read."""

    def __init__(self, mode, error, first=b""):
        io.RawIOBase.__init__(self)
        self.error, self.first = error, first

    def readable(self):
        return True

    def read(self, n=-1):
        raise self.error

    readline = readlines = readinto = read

    def __next__(self):
        raise self.error


def bad_file(error):
    return lambda mode: BadFile(mode, error)


class Device(object):
    """A machine with the given system files and interfaces."""

    def __init__(self, env, cpu=GOOD_CPU, model=GOOD_MODEL, osrel=GOOD_OS, interfaces=GOOD_IF):
        import distro
        import dataplicity.device_meta as dm
        self.env = env
        env.s.fs = fs = vfs.Fs(env)
        fs.virtual[CPU], fs.virtual[MODEL], fs.virtual[OSREL] = cpu, model, osrel
        env.w.interfaces = interfaces
        # what is read once per process is read anew
        distro._distro = distro.LinuxDistribution()
        importlib.reload(dm)

    def details(self):
        """The agent runs for a while: the details it sends."""
        env = self.env
        env.start_agent()
        t = env.s.spawn(env.client.run_forever, "agent", kind="agent")
        env.settle(65)
        env.check(not t.done, "the agent has ended: %r", env.s.thread_errors[:1])
        syncs = [r for r in env.api.requests if is_sync(r)]
        env.check(len(syncs) == 1, "the details were sent %d times", len(syncs))
        got = {}
        for c in syncs[0][1:]:
            env.check(len(c["params"]) == 1, "%r", c)
            got[c["method"]] = list(c["params"].items())[0]
        env.check(sorted(got) == sorted(META), "sent: %r", sorted(got))
        names = {"device.set_agent_version": "agent_version", "device.set_machine_revision": "revision_code", "device.set_model_name": "model_name",
                 "device.set_os_version": "os_version", "device.set_uname": "uname", "device.set_ip_addresses": "ip_list"}
        for m, (k, v) in got.items():
            env.check(k == names[m], "%s: %r", m, k)
        env.up()
        env.ping()
        return {names[m]: v for m, (k, v) in got.items()}

    def verify(self, revision="a02082", model=GOOD_MODEL.decode(), osv=("Raspbian GNU/Linux", "9", "stretch"), ips=("127.0.0.1", "10.0.2.15")):
        import dataplicity
        d = self.details()
        env = self.env
        env.check(d["agent_version"] == dataplicity.__version__, "agent version %r", d["agent_version"])
        env.check(d["uname"] == " ".join(platform.uname()), "uname %r", d["uname"])
        if revision is not Ellipsis:
            env.check(d["revision_code"] == revision, "revision %r, not %r", d["revision_code"], revision)
        if model is not Ellipsis:
            # (the kernel ends the name with a NUL)
            env.check((d["model_name"] or "").rstrip("\0") == model, "model %r, not %r", d["model_name"], model)
        if osv is not Ellipsis:
            env.check(d["os_version"] == " ".join(osv).strip(), "os version %r, not %r", d["os_version"], osv)
        if ips is not Ellipsis:
            env.check(d["ip_list"] == list(ips), "addresses %r, not %r", d["ip_list"], ips)
        return d


def revision_of(data):
    """The revision in a cpuinfo: an independent reading (Ellipsis: not text)."""
    for line in data.split(b"\n"):
        i = line.find(b":")
        if i < 0:
            continue
        if line[:i].strip().lower() == b"revision":
            try:
                return line[i + 1:].strip().lower().decode("utf-8")
            except UnicodeDecodeError:
                return Ellipsis
    return None


LINES = [b"Revision\t: A02082", b"revision: 0002", b"REVISION : ", b"Hardware : BCM2835", b"Model : Revision", b"nothing here", b"", b": x", b"Revision x : y",
         b"Revision : a:b", b"Revision\xff : z", b"Revision : \xff\xfe", b" Revision : 9 ", b"Serial : Revision : 7"]


def cpuinfo(ex):
    """Every processor description of a few lines."""
    n = ex.params
    lines = [ex.pick(LINES, label="line") for _ in range(n)]
    end = ex.pick([b"\n", b""], label="end")
    env = agent.Env(ex, preempt=False)

    def main():
        data = b"\n".join(lines) + end
        Device(env, cpu=data).verify(revision=revision_of(data))
        ex.note(data)

    env.run(main)


ERRORS = [FileNotFoundError(2, "No such file or directory"), PermissionError(13, "Permission denied"), IsADirectoryError(21, "Is a directory"),
          OSError(5, "Input/output error"), OSError(24, "Too many open files")]
READ_ERRORS = [OSError(5, "Input/output error"), OSError(19, "No such device")]
CONTENT = [b"", b"\0", b"\xff", b"\xff\xfe\x00x", b"x" * 100000, b"\n" * 1000, b":", b"\xed\xa0\x80", u"\u65e5\u672c".encode("utf-8"), b"Raspberry Pi 4\0", b"a\nb"]


def sources(ex):
    """Every source missing, failing or strange, in all combinations of two: the others are as ever."""
    kinds = ["good"] + [("error", e) for e in ERRORS] + [("read", e) for e in READ_ERRORS] + [("content", c) for c in CONTENT]
    which = ex.pick([(CPU, MODEL), (MODEL, OSREL), (CPU, OSREL)], label="sources")
    a = ex.pick(kinds, label="first")
    b = ex.pick(kinds, label="second")
    net = ex.pick(["good", OSError(25, "Inappropriate ioctl for device")], label="net")
    env = agent.Env(ex, preempt=False)

    def main():
        kw = {}
        want = {}
        for path, k in zip(which, (a, b)):
            arg = {CPU: "cpu", MODEL: "model", OSREL: "osrel"}[path]
            if k == "good":
                continue
            v = k[1]
            kw[arg] = bad_file(v) if k[0] == "read" else v
            if path == CPU:
                want["revision"] = revision_of(v) if k[0] == "content" else None
            elif path == MODEL:
                want["model"] = ""
                if k[0] == "content":
                    try:
                        want["model"] = v.decode("utf-8").rstrip("\0")
                    except UnicodeDecodeError:
                        want["model"] = Ellipsis
            else:
                want["osv"] = Ellipsis
        if net != "good":
            kw["interfaces"] = net
            want["ips"] = ()
        d = Device(env, **kw).verify(**want)
        for k in ("revision_code", "model_name", "os_version"):
            env.check(d[k] is None or isinstance(d[k], str), "%s: %r", k, d[k])
        ex.note(which, str(a)[:40], str(b)[:40], str(net))

    env.run(main)


NAMES = [b"lo", b"eth0", b"wlan0:1", b"fifteen-charact", b"\xff\xfe", b"e", b"", b"tun\xc3\xa9"]
ADDRS = ["127.0.0.1", "10.0.2.15", "0.0.0.0", "255.255.255.255", "1.2.3.4", "192.168.100.200"]


def interfaces(ex):
    """All small sets of interfaces, with all kinds of names and addresses, and many of them."""
    kind = ex.pick(["small", "many"], label="kind")
    if kind == "small":
        n = ex.choose(4, label="number")
        ifs = [(ex.pick(NAMES[:4] if n > 2 else NAMES, label="name"), ex.pick(ADDRS[:3] if n > 2 else ADDRS, label="address")) for _ in range(n)]
    else:
        n = ex.pick([4, 10, 33, 50, 64, 99, 100], label="number")
        ifs = [(b"veth%d" % i, "10.%d.%d.%d" % (i % 3, i, 255 - i)) for i in range(n)]
    env = agent.Env(ex, preempt=False)

    def main():
        Device(env, interfaces=ifs).verify(ips=[a for _, a in ifs])
        ex.note(ifs if n < 5 else n)
        left = [o for o in env.w.fds.values() if type(o).__name__ == "VSocket"]
        env.check(not left, "sockets were left open")

    env.run(main)


def net_errors(ex):
    """The interfaces can not be listed: no addresses, but everything else."""
    where = ex.pick(["socket", "ioctl"], label="where")
    err = ex.pick([OSError(24, "Too many open files"), PermissionError(1, "Operation not permitted"), ValueError("odd"), MemoryError()], label="error")
    env = agent.Env(ex, preempt=False)

    def main():
        if where == "socket":
            env.w.dgram_fault = err
        Device(env, interfaces=err if where == "ioctl" else GOOD_IF).verify(ips=())
        ex.note(where, repr(err))

    env.run(main)


STATES = [[(b"lo", "127.0.0.1")], GOOD_IF, [(b"lo", "127.0.0.1"), (b"eth0", "10.0.2.16"), (b"wlan0", "192.168.1.7")],
          OSError(19, "No such device")]


def later(ex):
    """The network comes, changes and goes while the details could not be sent yet: those sent are those of the moment."""
    env = agent.Env(ex, preempt=False)
    sent = []

    def behave(n, calls):
        if not is_sync(calls):
            return "ok"
        sent.append({c["method"]: c["params"] for c in calls})
        return answer(ex.pick(["ok", "unreachable", "error set_ip_addresses"], label="outcome"), calls)[0]

    def main():
        Device(env)
        env.api.behave = behave
        env.start_agent()
        env.up()
        for i in range(ex.params):
            env.fresh()
            state = env.w.interfaces = ex.pick(STATES, label="network")
            n = len(sent)
            env.s.spawn(env.client.poll, "poll", kind="agent")
            env.settle(1)
            if len(sent) == n:
                break  # (they were accepted before: see C24)
            want = [] if isinstance(state, Exception) else [a for _, a in state]
            got = sent[-1]["device.set_ip_addresses"]
            env.check(got == {"ip_list": want}, "addresses %r, not %r", got, want)
            env.check(sent[-1]["device.set_machine_revision"] == {"revision_code": "a02082"}, "revision %r", sent[-1]["device.set_machine_revision"])
            ex.note(i, want)
        env.ping()

    env.run(main)


OSES = [(b'NAME="Raspbian GNU/Linux"\nVERSION_ID="9"\nVERSION="9 (stretch)"\n', ("Raspbian GNU/Linux", "9", "stretch")),
        (b'NAME=Alpine\nVERSION_ID=3.18.2\n', ("Alpine", "3.18.2", "")), (b'NAME="\xc3\x89t\xc3\xa9"\nVERSION_ID="1"\nVERSION_CODENAME=x\n', (u"\u00c9t\u00e9", "1", "x")),
        (b'# comment\n\nNAME=X\nVERSION_ID=""\nVERSION="2 (Two)"\n', ("X", Ellipsis, Ellipsis))]


def systems(ex):
    """Operating systems."""
    data, want = ex.pick(OSES, label="system")
    env = agent.Env(ex, preempt=False)

    def main():
        d = Device(env, osrel=data).verify(osv=Ellipsis)
        if Ellipsis not in want:
            env.check(d["os_version"].split() == " ".join(want).split(), "os version %r, not %r", d["os_version"], want)
        else:
            env.check(d["os_version"].startswith(want[0]), "os version %r", d["os_version"])
        ex.note(d["os_version"])

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("cpuinfo", cpuinfo, 0, 3 if deep else 2, about="processor descriptions"),
        Family("sources", sources, 0, about="sources missing, failing or strange"),
        Family("interfaces", interfaces, 0, about="network interfaces"),
        Family("net-errors", net_errors, 0, about="interfaces that can not be listed"),
        Family("later", later, 0, 4 if deep else 3, about="networks that come and go"),
        Family("systems", systems, 0, about="operating systems"),
    ]
