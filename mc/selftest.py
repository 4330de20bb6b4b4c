"""The machinery checks itself: known spaces are counted exactly, known bugs found, correct code is quiet."""
from __future__ import print_function

import sys

from . import boot, core


def lost_update(ex):
    """Two threads increment without a lock."""
    s = ex.new_sched()
    v = [0]

    def inc():
        x = v[0]
        s.point("between")
        v[0] = x + 1
    s.spawn(inc)
    s.spawn(inc)
    s.run()
    s.obs("value", v[0])
    if v[0] != 2:
        raise core.Violation("lost update")


def locked(ex):
    import threading
    s = ex.new_sched()
    v = [0]
    lock = threading.Lock()

    def inc():
        with lock:
            x = v[0]
            s.point("between")
            v[0] = x + 1
    for _ in range(3):
        s.spawn(inc)
    s.run()
    if v[0] != 3:
        raise core.Violation("lost update")


def deadlock(ex):
    import threading
    s = ex.new_sched()
    a, b = threading.Lock(), threading.Lock()
    done = []

    def f(x, y):
        with x:
            with y:
                done.append(1)
    s.spawn(lambda: f(a, b))
    s.spawn(lambda: f(b, a))
    s.run()
    if len(done) != 2:
        raise core.Violation("deadlock")


def tree(ex):
    for i in range(5):
        ex.note(ex.choose(3))


def main():
    boot.boot()
    boot.drop()
    try:
        r = core.explore(lost_update, 0, jobs=1)
        assert not r.violations, r.violations
        r = core.explore(lost_update, 1, jobs=1)
        assert r.violations, "lost update not found"
        for jobs in (1, 4):
            r = core.explore(locked, 3, jobs=jobs)
            assert not r.violations and r.executions > 50, (r.violations, r.executions)
        assert not core.explore(deadlock, 0, jobs=1).violations
        assert core.explore(deadlock, 1, jobs=1).violations
        for jobs in (1, 4):
            r = core.explore(tree, 0, jobs=jobs)
            assert r.executions == 3 ** 5 and len(r.outcomes) == 3 ** 5, r.executions
    finally:
        boot.regain()
        boot.remove_scratch()
    print("selftest ok")
    return 0


if __name__ == "__main__":
    sys.exit(main())
