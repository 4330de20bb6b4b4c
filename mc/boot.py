"""Installs the virtual machine and imports the agent from the repository's working tree."""
import logging
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")

_done = []


def boot(instrumented=("dataplicity", "lomond"), constants=None, environ=None):
    if _done:
        return
    _done.append(1)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(5000)
    logging.disable(logging.CRITICAL)
    for name in list(os.environ):
        if name.startswith("DATAPLICITY_") or name.upper() in ("HTTP_PROXY", "HTTPS_PROXY"):
            del os.environ[name]
    os.environ.update(environ or {})
    os.umask(0o022)
    from . import vthread, vos, vfs, instrument
    # stdlib modules that take references at import time, before anything is replaced
    import concurrent.futures, queue, multiprocessing, ssl, http.client, tempfile  # noqa
    import urllib.request, distro, platform, json, zlib, six, typing  # noqa
    platform.uname().processor  # kept by the module from now on
    import lomond as _l  # noqa: locate it
    lomond_path = os.path.dirname(os.path.dirname(os.path.abspath(_l.__file__)))
    for m in [m for m in sys.modules if m == "lomond" or m.startswith("lomond.")]:
        del sys.modules[m]
    make_scratch()
    vthread.install()
    vos.install()
    vfs.install()
    roots = {}
    if "lomond" in instrumented:
        roots["lomond"] = [lomond_path]
    roots["dataplicity"] = [REPO]
    instrument.install(roots)
    import queue as q
    import threading
    q.threading = threading  # Queue uses threading.Lock/Condition by attribute: virtual
    import lomond.websocket
    for k, v in (constants or {}).items():
        import dataplicity.constants
        setattr(dataplicity.constants, k, v)
    from . import agent
    global RealWebSocket
    RealWebSocket = lomond.websocket.WebSocket
    lomond.WebSocket = agent.FakeWebSocket
    import dataplicity.client  # noqa
    import dataplicity.app  # noqa
    if not os.path.abspath(dataplicity.__file__).startswith(os.path.abspath(REPO)):
        raise RuntimeError("dataplicity imported from %s" % dataplicity.__file__)
    from . import core, pristine
    pristine.snapshot()
    core.FRESH = pristine.restore


RealWebSocket = None
SCRATCH = None
_owner = None
NOBODY = 65534


def make_scratch():
    """A directory of our own for everything the code under test writes; it stands for the temp dirs."""
    global SCRATCH, _owner
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix="mc-scratch-", dir="/tmp")
    os.chmod(SCRATCH, 0o777)
    _owner = os.getpid()
    tmp = os.path.join(SCRATCH, "tmp")
    os.mkdir(tmp)
    os.chmod(tmp, 0o777)
    home = os.path.join(SCRATCH, "home")
    os.mkdir(home)
    os.chmod(home, 0o777)
    os.environ["HOME"] = home
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    # the agent prefers /var/tmp over the temp dir when there is one: here there is none
    for name in ("exists", "isdir", "lexists"):
        def wrap(real):
            def f(p):
                if p in ("/var/tmp", "/var/tmp/"):
                    return False
                return real(p)
            return f
        setattr(os.path, name, wrap(getattr(os.path, name)))


def remove_scratch():
    if SCRATCH and _owner == os.getpid() and SCRATCH.startswith("/tmp/mc-scratch-"):
        import shutil
        shutil.rmtree(SCRATCH, ignore_errors=True)


def drop():
    """The code under test runs without privileges."""
    try:
        os.setegid(NOBODY)
        os.seteuid(NOBODY)
    except OSError:
        pass


def regain():
    try:
        os.seteuid(0)
        os.setegid(0)
    except OSError:
        pass
