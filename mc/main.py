"""Runs one property's check: explore every family, confirm violations, write the evidence."""
from __future__ import print_function

import argparse
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Family(object):
    """One bounded space of executions of one harness."""

    def __init__(self, name, harness, bound, params=None, about="", seed_target=64):
        self.name = name
        self.harness = harness
        self.bound = bound
        self.params = params
        self.about = about
        self.seed_target = seed_target


def known_findings(pid):
    """signature -> text, for `finding: property=<id> sig=<signature> <text>` lines."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s sig=" % pid):
                rest = line.split("sig=", 1)[1].strip()
                sig, _, text = rest.partition(" ")
                out[sig] = text
    return out


def write_replay(pid, tier, fam, prefix, msg, ex):
    d = os.path.join(VERIF, "replays")
    if not os.path.isdir(d):
        os.makedirs(d)
    path = os.path.join(d, "%s-%s.json" % (pid, fam.name))
    with open(path, "w") as f:
        json.dump({
            "property": pid, "tier": tier, "family": fam.name, "choices": [list(c) for c in prefix],
            "message": msg,
            "history": [repr(h) for h in ex.history[:200]],
            "observed": [repr(o)[:400] for o in (ex.sched.log if ex.sched else [])[:300]],
            "labels": [[i, ex.x.labels[i]] for i, c in enumerate(ex.x.taken) if c],
            "replay": "cd /verif && ./check.sh %s --replay %s" % (pid, path),
        }, f, indent=1)
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="a single family")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    from . import core, boot
    t0 = core.REAL_TIME()
    jobs = a.jobs or min(8, os.cpu_count() or 8)
    budget = a.budget or (600 if a.tier == "quick" else 3000)
    mod = importlib.import_module("mc.props.%s" % pid.lower())
    violation = None
    try:
        boot.boot(**getattr(mod, "BOOT", {}))
    except SyntaxError:
        raise
    except Exception as e:
        # the agent cannot even be imported
        violation = ("import", "the agent cannot be imported: %r\n%s" % (e, traceback.format_exc()))
    known = known_findings(pid)
    core.KNOWN = frozenset(known)
    if violation:
        print(violation[1])
        fam = Family(violation[0], None, 0)
        path = write_replay(pid, a.tier, fam, (), violation[1], core.Execution())
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    fams = mod.families(a.tier)
    if a.replay:
        r = json.load(open(a.replay))
        fams = {f.name: f for f in mod.families(r.get("tier", a.tier))}
        boot.drop()
        ex, msg = core.run_one(fams[r["family"]].harness, tuple(tuple(c) for c in r["choices"]),
                               fams[r["family"]].params)
        for h in ex.history:
            print("  ", h)
        for o in (ex.sched.log if ex.sched else []):
            print("  ", repr(o)[:300])
        print("message:", msg)
        code = 0
        if msg is not None and not (ex.sig and ex.sig in known):
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            code = 1
        boot.regain()
        boot.remove_scratch()
        return code
    if a.only:
        fams = [f for f in fams if f.name == a.only]
    total = core.Result()
    cov = []
    found = []
    deadline = t0 + budget
    setup = getattr(mod, "setup", None)
    if setup:
        setup()
    boot.drop()
    try:
        for fam in fams:
            ft = core.REAL_TIME()
            r = core.explore(fam.harness, fam.bound, fam.params, deadline=deadline, jobs=jobs,
                             seed_target=fam.seed_target)
            if r.errors:
                raise core.HarnessError("family %s: %s" % (fam.name, r.errors[0]))
            cov.append({
                "family": fam.name, "what": fam.about, "deviation_bound": fam.bound,
                "executions": r.executions, "choice_points": r.choice_points,
                "executions_by_deviations": {str(k): v for k, v in sorted(r.by_cost.items())},
                "distinct_states": len(r.states), "distinct_outcomes": len(r.outcomes),
                "transitions": r.transitions, "completed_within_bound": not r.capped and not r.violations,
            })
            sys.stderr.write("%s %-28s bound=%d execs=%d states=%d outcomes=%d %s%.1fs\n" % (
                pid, fam.name, fam.bound, r.executions, len(r.states), len(r.outcomes),
                "CAPPED " if r.capped else "", core.REAL_TIME() - ft))
            if r.violations:
                cost, n, prefix, msg = min(r.violations)
                # replay twice before believing it
                again = [core.run_one(fam.harness, prefix, fam.params) for _ in range(2)]
                if any(m is None for _, m in again):
                    raise core.HarnessError("violation in %s does not replay: %s" % (fam.name, msg))
                boot.regain()
                path = write_replay(pid, a.tier, fam, prefix, again[0][1], again[0][0])
                print("family %s, choices %r:\n%s" % (fam.name, prefix, again[0][1]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                found.append(path)
            total.merge(r)
            if found:
                break
    finally:
        boot.regain()
        boot.remove_scratch()
    for sig in sorted(total.known):
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (pid, known[sig], total.known[sig]))
    if not a.no_evidence:
        ev = {
            "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "model_checking",
            "coverage": {
                "states": len(total.states), "transitions": total.transitions,
                "traces_validated_against_impl": total.executions,
                "samples": total.samples[:3] or [{"family": c["family"]} for c in cov[:1]],
                "families": cov,
                "distinct_outcomes": len(total.outcomes),
                "exhaustive": not total.capped and not found and not a.only,
                "explanation": "Every execution is a run of the real code of /repo under the controlled "
                               "scheduler / environment; states are distinct (observation history, thread "
                               "position) digests at choice points, transitions are executed statements "
                               "and environment steps.",
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []) + BASE_ASSUMPTIONS,
            "wall_s": round(core.REAL_TIME() - t0, 2),
            "violations": len(found),
        }
        d = os.path.join(VERIF, "evidence")
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(os.path.join(d, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if found:
        return 1
    if total.capped:
        sys.stderr.write("%s: time budget reached; see completed_within_bound in the evidence\n" % pid)
    return 0


BASE_ASSUMPTIONS = [
    "Threads interleave at statement boundaries of the instrumented modules and at every synchronisation, "
    "socket, pipe and process operation; attribute read-modify-writes are split.",
    "The virtual machine (sockets, poll, pipes, ptys, processes, time) behaves like Linux for the operations "
    "the agent uses; mc/conformance.py compares it with the real kernel.",
    "Bounds are those listed per family; nothing is claimed beyond them.",
]

if __name__ == "__main__":
    sys.exit(main())
