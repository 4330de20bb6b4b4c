"""Statements of the agent that no execution of any check reached.

    rm -f /tmp/cov.txt; touch /tmp/cov.txt; chmod 666 /tmp/cov.txt
    MC_COVERAGE=/tmp/cov.txt ./check.sh C05 --no-evidence; ...
    /opt/venv/bin/python -m tools.coverage /tmp/cov.txt
"""
import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import instrument  # noqa


def main(path):
    seen = set(l.strip() for l in open(path))
    total = missed = 0
    root = os.environ.get("MC_REPO", "/repo")
    for d, _, names in sorted(os.walk(root + "/dataplicity")):
        for n in sorted(names):
            if not n.endswith(".py"):
                continue
            p = os.path.join(d, n)
            mod = os.path.relpath(p, root)[:-3].replace("/", ".").replace(".__init__", "")
            source = open(p).read()
            del instrument.SITES[:]
            instrument._Transform(mod).visit(ast.parse(source))
            sites = sorted(set(instrument.SITES), key=lambda s: int(s.rsplit(":", 1)[1]))
            lines = source.splitlines()
            for s in sites:
                total += 1
                if s not in seen:
                    missed += 1
                    print("%-40s %s" % (s, lines[int(s.rsplit(":", 1)[1]) - 1].strip()))
    print("%d of %d statements reached" % (total - missed, total))


if __name__ == "__main__":
    main(sys.argv[1])
