"""Runs each planted bug's check against it:  python3 tools/runseeds.py [id...]   (results: CAUGHT / MISSED / ?)"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedrun"


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    bad = 0
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        shutil.rmtree(COPY, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", COPY])
        subprocess.check_call(["git", "-C", COPY, "apply", os.path.join(d, "patch.diff")])
        env = dict(os.environ, MC_REPO=COPY)
        p = subprocess.run(["bash", os.path.join(HERE, "check.sh"), prop, "--no-evidence"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        out = p.stdout.decode("utf-8", "replace")
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        r = "CAUGHT" if p.returncode == 1 and v else "MISSED" if p.returncode == 0 else "? rc=%d" % p.returncode
        bad += r != "CAUGHT"
        print("%-16s %s %s" % (i, prop, r), flush=True)
        with open("/tmp/seedlog-%s.out" % i, "w") as f:
            f.write(out)
    shutil.rmtree(COPY, ignore_errors=True)
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
