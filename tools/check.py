#!/usr/bin/env python3
"""Check one property of the assembler in the working tree: check.py ID [--tier quick|thorough] [--replay FILE]

Exit status 0: the property held.  1: it did not, with a line VIOLATION property=ID replay=FILE.
2: the machinery itself failed, nothing is known about the property.
"""
import argparse
import copy
import json
import os
import random
import shutil
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dasmlib
from dasmlib import VERIF, MachineryError, Prog, build, check_records, observe, test_record, text
import hexcheck
import models
import props

EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(pid):
    """{replay program digest: what fails} of the committed list; lines 'finding: property=ID <digest> <text>'."""
    out = {}
    try:
        for line in open(KNOWN):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + pid:
                out[w[2]] = w[3].strip()
    except FileNotFoundError:
        pass
    return out


def observe_all(dasm, progs, scratch):
    """Run every program; after a few time outs the rest is left out (None)."""
    hung = [0]

    def one(p):
        if hung[0] >= 3:
            return None
        o = observe(dasm, p, scratch)
        if o["exit"] == -1000:
            hung[0] += 1
        return o
    with ThreadPoolExecutor(dasmlib.CPUS) as ex:
        obs = list(ex.map(one, progs))
    if sum(len(o["list"]) for o in obs if o) > 1500000:
        for o in obs:
            if o:
                dasmlib.cap(o, 2000)
    return obs


def show(d):
    def f(x):
        if isinstance(x, list) and x and all(isinstance(y, list) for y in x):
            return [f(y) for y in x]
        return text(x)
    s = repr([d[0]] + [f(x) for x in d[1:]])
    return s if len(s) < 600 else s[:600] + "..."


def corruptions(records, kinds):
    """Records with one recorded value changed, each with the kind of difference it must show."""
    out = []
    ok = [r for r in records if r["obs"]["exit"] == 0 and len(r["obs"]["out"]) > 3 and len(r["obs"]["sym"]) > 2]
    for r in ok[:1] + ok[len(ok) // 2:len(ok) // 2 + 1]:
        for kind in sorted(kinds):
            c = copy.deepcopy(r)
            o = c["obs"]
            if kind == "exit":
                o["exit"] = 5
            elif kind == "bytes":
                o["out"][-1] ^= 1
            elif kind == "symbols":
                line = o["sym"][1]
                line[-1 if line[-1] != 41 else 25] ^= 1
            elif kind == "list":
                ls = [l for l in o["list"] if len(l) > 20]
                ls[len(ls) // 2][9] ^= 1
            elif kind == "echo":
                o["stdout"].insert(0, [33])
            elif kind == "passes":
                o["passes"] += 1
            elif kind == "last":
                c["opt"]["last"] = True
                o["last"] = o["list"][:-1]
            else:
                continue
            out.append((c, kind))
    # a command line of its own that names no output file
    own = [r for r in records if r["cmd"] and r["obs"]["exit"] == 0 and not any(bytes(x[:2]) in (b"-o", b"/o") for x in r["argv"])
           and any(bytes(t[0]) == b"a.out" and len(t[2]) > 3 for t in r["obs"]["tree"])]
    for r in own[:2]:
        for kind in sorted(kinds & {"exit", "bytes", "files"}):
            c = copy.deepcopy(r)
            o = c["obs"]
            if kind == "exit":
                o["exit"] = 5
            elif kind == "files":
                o["tree"].append([[33], False, [], []])
            else:
                [t for t in o["tree"] if bytes(t[0]) == b"a.out"][0][2][-1] ^= 1
            out.append((c, kind))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--replay")
    ap.add_argument("--max", type=int, default=0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = props.PROPS[a.id]
    scratch = tempfile.mkdtemp(prefix="vp-" + a.id + "-")
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        status, ev = check(a, spec, seed, scratch)
    except MachineryError as e:
        print("ERROR: " + str(e)[-4000:])
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if ev is not None:
        ev["wall_s"] = round(time.time() - t0, 1)
        with open(os.path.join(EVIDENCE, a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    return status


def judge(dasm, progs, kinds, scratch, timeout):
    obs = observe_all(dasm, progs, scratch)
    recs = [(i, test_record(p, o)) for i, (p, o) in enumerate(zip(progs, obs)) if o is not None]
    extra = corruptions([r for _, r in recs], kinds)
    res, st = check_records([r for _, r in recs] + [c for c, _ in extra], scratch, timeout)
    good = res[:len(recs)]
    bad = []
    for (i, r), v in zip(recs, good):
        d = [x for x in v["diffs"] if x[0] in kinds and not (x[0] in ("echo", "errors") and progs[i].chatty())]
        if d:
            bad.append((i, d))
    missed = [k for (c, k), v in zip(extra, res[len(recs):]) if not any(d[0] == k for d in v["diffs"])]
    return bad, good, st, len(extra), missed, [r for _, r in recs]


def check(a, spec, seed, scratch):
    quick = a.tier == "quick"
    kinds = set(spec["kinds"])
    dasm, ftohex = build(scratch)
    watched = spec.get("watched") and dasmlib.build_watched(scratch)
    if watched:
        dasm, ftohex = watched
    timeout = 850 if quick else 7200
    dasmlib.C2 = not quick
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        if "hex" in d:
            return hexcheck.replay(a, d, ftohex, scratch), None
        bad = judge(dasm, [Prog.from_json(d["program"])], kinds, scratch, timeout)[0]
        for _, ds in bad:
            for x in ds:
                print(show(x))
        print("VIOLATION property=%s replay=%s" % (a.id, a.replay) if bad else "replay: no difference")
        return (1 if bad else 0), None

    rng = random.Random("%s/%d/%s" % (a.id, seed, a.tier))
    with ThreadPoolExecutor(1) as side:
        models_run = side.submit(models.run, spec.get("models", ()), a.tier, scratch, timeout * .5, dasm)
        if "hex" in spec:
            failures, cov, ndone = hexcheck.check(a, dasm, ftohex, rng, scratch, timeout)
        else:
            failures, cov, ndone = conform(a, spec, kinds, dasm, rng, scratch, timeout, quick)
        mres = models_run.result()
    if mres["suspects"] and not failures:
        failures = confirm(a, dasm, mres["suspects"], kinds, scratch, timeout * .25)
    cov["states"] += mres["states"]
    cov["transitions"] += mres["transitions"]
    cov["programs_of_models_run"] = mres["programs"]
    cov["models"] = mres["models"]
    if spec.get("watched"):
        cov["memory_watched"] = bool(watched)
    known = known_findings(a.id)
    status = 0
    for n, (what, data) in enumerate(failures):
        dig = data["digest"]
        if dig in known:
            print("KNOWN-FINDING: property=%s %s" % (a.id, known[dig]))
            continue
        path = os.path.join(EVIDENCE, "replay-%s-%d.json" % (a.id, n))
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        for w in what:
            print(w)
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        status = 1
        if n >= 4:
            break
    ev = {"property": a.id, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": 0,
          "assumptions": spec.get("assumptions", []), "violations": len(failures)}
    print("%s %s: %d runs checked against the specification, %d programs of models, %d states, %d transitions, %d violation(s)"
          % (a.id, a.tier, ndone, mres["programs"], cov["states"], cov["transitions"], len(failures)))
    return status, ev


def confirm(a, dasm, progs, kinds, scratch, timeout):
    """The failures among programs that showed a difference: only what happens again on a fresh run counts."""
    progs = sorted(progs, key=lambda p: sum(len(v) for v in p.files.values()))[:6]
    failures = []
    for j, d in judge(dasm, progs, kinds, scratch, timeout)[0]:
        p = progs[j]
        data = {"property": a.id, "program": p.to_json(), "differences": [show(x) for x in d], "digest": props.digest(p)}
        failures.append((["difference: " + show(x) for x in d[:3]], data))
    if not failures:
        print("note: %d differences did not happen again on a fresh run" % len(progs))
    return failures


def conform(a, spec, kinds, dasm, rng, scratch, timeout, quick):
    progs = spec["gen"](rng, 1 if quick else spec.get("scale", 8))
    if a.max:
        progs = progs[:a.max]
    bad, good, st, nc, missed, recs = judge(dasm, progs, kinds, scratch, timeout * .6)
    failures = []
    if bad:
        failures = confirm(a, dasm, [progs[i] for i, _ in bad], kinds, scratch, timeout * .25)
    undecided = [v["error"] for v in good if "error" in v]
    if undecided and not failures:
        raise MachineryError("TLC could not evaluate %d records: %s" % (len(undecided), undecided[0]))
    if missed and not bad:
        raise MachineryError("corrupted records were accepted: %s" % missed)
    seen = sorted({c for v in good for c in v["cov"]})
    lack = sorted(set(spec.get("must", ())) - set(seen))
    if lack and not failures:
        raise MachineryError("vacuous: line classes never executed: %s" % lack)
    exits = {}
    for v in good:
        exits[str(v["exit"])] = exits.get(str(v["exit"]), 0) + 1
    cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": len(recs), "samples": [
        {"note": p.note or "generated", "source": p.files[p.main].decode("latin-1")[:1500], "args": p.args()} for p in progs[:2]],
        "corrupted_records_rejected": nc - len(missed), "line_classes": seen, "exit_statuses": exits,
        "max_passes": max([v["pass"] for v in good] or [0])}
    return failures, cov, len(recs)


if __name__ == "__main__":
    sys.exit(main())
