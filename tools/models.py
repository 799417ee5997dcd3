"""The exhaustive models: TLC checks every program of a family against rules of its own, and the assembler is
then run on every one of these programs and compared with what the model says."""
import json
import os
import re
import shutil
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import dasmlib
from dasmlib import MachineryError, Prog, errors, materialize, read, run as execute, tlc


def lens(quick, thorough, report="Reports", **more):
    d = {"quick": ["MaxLen = %d" % quick], "thorough": ["MaxLen = %d" % thorough], "report": report}
    for k, v in more.items():
        if isinstance(v, tuple):
            d["quick"].append("%s = %s" % (k, v[0]))
            d["thorough"].append("%s = %s" % (k, v[1]))
        else:
            d["quick"].append("%s = %s" % (k, v))
            d["thorough"].append("%s = %s" % (k, v))
    return d


# model -> module, constants per tier, the property that prints what the assembler should do
MODELS = {
    "passes": dict(lens(3, 4), module="MCPasses", properties=["Terminates"]),
    "conditions": dict(lens(5, 6, Kinds="{1, 4, 5, 7, 8, 9, 10, 15, 16}"), module="MCBlocks"),
    "loops": dict(lens(5, 6, Kinds="{1, 2, 3, 6, 9, 10, 11, 12, 13, 14, 17}"), module="MCBlocks"),
    "macros": dict(lens(1, 2), module="MCMacro"),
    "segments": dict(lens(3, 4), module="MCSeg"),
    "scopes": dict(lens(3, 4), module="MCScope"),
    "expressions": dict(lens(1, 2, "ExprReports"), module="MCExpr"),
    "texts": dict(lens(3, 5, "TextReports"), module="MCText"),
    "longexpr": {"module": "MCExpr", "quick": None, "thorough": ["MaxLen = 3"], "report": None},
    "arithmetic": {"module": "MCArith", "quick": [], "thorough": [], "report": None},
    "branches": dict(lens(7, 7), module="MCBranch"),
    "files": dict(lens(2, 3), module="MCFiles"),
    "data": dict(lens(0, 2), module="MCData"),
    "lines": dict(lens(2, 4, "LexReports"), module="MCLex"),
    "commands": dict(lens(2, 3, "CmdReports"), module="MCCmd"),
    "reports": dict(lens(3, 4, "AllReports"), module="MCReport"),
    "hex": dict(lens(12, 60, None), module="MCHex"),
    "opcodes": {"module": "MCOpcodes", "quick": [], "thorough": [], "report": None},
    "instructions": dict(lens(4660, 4660, Chosen="{1, 2, 3, 4, 5, 6, 7}"), module="MCIsa"),
}
RUN = re.compile(r'^<<"RUN", "(.*)">>$')
LIMIT = {"quick": 300, "thorough": 3000}


def program(d):
    files = {bytes(n).decode("latin-1"): b"".join(bytes(l) for l in ls) for n, ls in d["files"]}
    if "argv" in d:
        return Prog(files, {bytes(n).decode("latin-1"): b"old\n" for n in d["old"]}, argv=[bytes(x).decode("latin-1") for x in d["argv"]], note="model")
    return Prog(files, fmt=d["fmt"], sort=d.get("sort", 0), strict=d["strict"], defs=["-I" + bytes(x).decode("latin-1") for x in d["dirs"]], note="model")


def agrees(dasm, d, scratch):
    """Does the assembler do with the program what the model says?"""
    p = program(d)
    if "list" in d:
        o = dasmlib.observe(dasm, p, scratch)
        place = {bytes(l): k for l, k in d["sym"]}
        body = [bytes(l) for l in o["sym"][1:-1]]
        return o["exit"] == d["exit"] and o["list"] == d["list"] and o["stdout"] == d["stdout"] and o["passes"] == d["passes"] \
            and (o["exit"] != 0 or o["out"] == d["out"] and sorted(body) == sorted(place) and [place[l] for l in body] == sorted(place.values()))
    where = tempfile.mkdtemp(dir=scratch)
    try:
        materialize(p, where)
        if p.argv is not None:
            code = execute([dasm] + p.args(), where)[0]
            names = {bytes(n).decode("latin-1") for n in d["names"]}
            left = {bytes(n).decode("latin-1"): data for n, _, data, _ in dasmlib.tree(p, where)}
            return code == d["exit"] and set(left) == names and (code != 0 or bytes(left[bytes(d["name"]).decode("latin-1")]) == bytes(d["out"]))
        args = [p.main, "-oout.bin", "-f%d" % p.fmt] + (["-S"] if p.strict else []) + p.defs
        code = execute([dasm] + args, where)[0]
        if code != d["exit"]:
            return False
        return code != 0 or (read(os.path.join(where, "out.bin")) or b"") == bytes(d["out"])
    finally:
        shutil.rmtree(where, ignore_errors=True)


def one(name, tier, scratch, dasm, timeout, workers):
    m = MODELS[name]
    consts = m[tier]
    if consts is None:
        return None
    props = ["Theorem"] + m.get("properties", []) + ([m["report"]] if m["report"] else [])
    t0 = time.time()
    fd, cfg = tempfile.mkstemp(dir=scratch, suffix=".cfg")
    with os.fdopen(fd, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANT Test <- MCTest\n" + "".join("CONSTANT %s\n" % c for c in consts)
                + "PROPERTIES %s\nCHECK_DEADLOCK FALSE\n" % " ".join(props))
    rc, out = tlc(m["module"] + ".tla", cfg, scratch, workers=workers, timeout=timeout, xmx="4g", c2=True)
    os.remove(cfg)
    done = "Model checking completed. No error has been found." in out
    if not done and "timed out" not in out[-300:]:
        raise MachineryError("model %s (%s): %s" % (name, m["module"], errors(out)))
    # every program is reported when its run has ended, more than once if TLC asks twice
    texts = sorted({x.group(1) for x in map(RUN.match, out.splitlines()) if x})
    runs = [json.loads(re.sub(r"\\(.)", r"\1", t)) for t in texts]
    bad = []

    def look(d):
        if len(bad) < 20 and not agrees(dasm, d, scratch):
            bad.append(program(d))
    with ThreadPoolExecutor(dasmlib.CPUS) as ex:
        list(ex.map(look, runs))
    s = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in s[-1]) if s else (0, 0)
    if done and (dist < 10 or m["report"] and len(runs) < 10):
        raise MachineryError("model %s is empty: %d states, %d programs" % (name, dist, len(runs)))
    return {"module": m["module"], "constants": consts, "complete": done, "states": dist, "transitions": gen, "programs_run": len(runs),
            "disagreements": len(bad), "wall_s": round(time.time() - t0, 1)}, bad


def run(models, tier, scratch, timeout, dasm):
    out = {"states": 0, "transitions": 0, "programs": 0, "models": {}, "suspects": []}
    for name in models:
        r = one(name, tier, scratch, dasm, min(timeout, LIMIT[tier]), 4)
        if r:
            out["models"][name] = r[0]
            out["states"] += r[0]["states"]
            out["transitions"] += r[0]["transitions"]
            out["programs"] += r[0]["programs_run"]
            out["suspects"] += r[1]
    return out
