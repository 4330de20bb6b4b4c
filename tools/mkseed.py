#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seed/seeds.py, each one confirmed in a scratch copy.

    mkseed.py [ID...]      (a bug which is not confirmed is not written)
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "seed"))
import seeds  # noqa: E402

PYTHON = "/opt/venv/bin/python"
COPY = "/tmp/seedrepo"
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8\nexec timeout 200 %s -B "$(dirname "$0")/demo.py"\n' % PYTHON


def run(command, **kwargs):
    return subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kwargs)


def demo(where, times):
    return [run(["bash", where + "/demo.sh"], cwd=COPY).returncode for _ in range(times)]


def main(wanted):
    for id, prop, edits, text, needs, breaks in seeds.S:
        if wanted and id not in wanted:
            continue
        shutil.rmtree(COPY, True)
        subprocess.check_call(["cp", "-a", "/repo", COPY])
        work = "/tmp/seedwork/" + id
        shutil.rmtree(work, True)
        os.makedirs(work)
        shutil.copy(HERE + "/seed/agentdemo.py", work)
        with open(work + "/demo.py", "w") as f:
            f.write("import os\nimport sys\nimport threading\nimport time\nimport json\n")
            f.write("sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n")
            f.write("from agentdemo import *\n" + text)
        with open(work + "/demo.sh", "w") as f:
            f.write(DEMO)
        problem = None
        before = demo(work, 2)
        for name, old, new in edits:
            path = COPY + "/dataplicity/" + name
            source = open(path).read()
            if old not in source:
                problem = "text not found in " + name
                break
            open(path, "w").write(source.replace(old, new, 1))
        if problem is None:
            diff = subprocess.check_output(["git", "-C", COPY, "diff"])
            # The lines it takes away have to be of the original repository
            original = subprocess.run(["git", "-C", COPY, "diff", "-U0"], stdout=subprocess.PIPE).stdout.decode()
            lines = set()
            added = subprocess.check_output(["git", "-C", "/repo", "diff", "-U0", "de43085"]).decode()
            ours = {l[1:] for l in added.split("\n") if l.startswith("+") and not l.startswith("+++")}
            taken = [l[1:] for l in original.split("\n") if l.startswith("-") and not l.startswith("---")]
            mine = [l for l in taken if l in ours and l.strip()]
            after = demo(work, 2)
            tests = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=COPY,
                        env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8"))
            result = tests.stdout.decode().strip().split("\n")[-1]
            if before != [0, 0] or 0 in after:
                problem = "demo before %r after %r" % (before, after)
            elif "51 passed" not in result:
                problem = result
            elif mine:
                problem = "takes away lines of a fix: %r" % mine
        if problem:
            print(id, "NOT CONFIRMED", problem, flush=True)
            continue
        with open(work + "/patch.diff", "wb") as f:
            f.write(diff)
        with open(work + "/meta.json", "w") as f:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
            f.write("\n")
        target = os.path.join(os.path.dirname(HERE), "seeded", id)
        shutil.rmtree(target, True)
        shutil.copytree(work, target)
        print(id, "confirmed", "(only adds lines)" if not taken else "", flush=True)
    shutil.rmtree(COPY, True)


main(sys.argv[1:])
