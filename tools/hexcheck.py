"""Conformance of ftohex with spec/Hex.tla."""
import copy
import hashlib
import os
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

import dasmlib
from dasmlib import MachineryError, check_records, codes, observe, read, run, split_lines
import props1


def word(n):
    return bytes([n & 255, n >> 8 & 255])


def files(rng, k):
    """(format, bytes): well-formed output files."""
    def data(n):
        style = rng.randrange(4)
        return bytes(rng.choice([0, 255, 10, 13, 26, 128, 58, i & 255]) if style == 0 else 255 if style == 1 else rng.randrange(256) for i in range(n))
    sizes = list(range(0, 70)) + [127, 128, 129, 239, 240, 241, 254, 255, 256, 257, 258, 271, 272, 273, 511, 512, 513, 1000]
    out = []
    for n in sizes:
        for f in (1, 2, 3):
            org = rng.choice([0, 1, 255, 256, 0x1000, 0x7fff, 0x8000, 0xff00, 0xfff0 - n & 0xffff, 0x10000 - n & 0xffff, rng.randrange(65536)])
            if org + n > 65536:
                org = 65536 - n
            if f == 1 and n == 0:
                out.append((1, b""))
            d = data(n)
            out.append((f, word(org) + d if f == 1 else word(org) + word(n) + d if f == 2 else d))
    out.append((2, b""))
    for _ in range(150 * k):
        b = b""
        for _ in range(rng.randint(1, 6)):
            n = rng.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, rng.randint(0, 100)])
            b += word(rng.choice([0, 0x80, 0xff, 0x100, 0xfff0 - n, rng.randrange(60000)])) + word(n) + data(n)
        out.append((2, b))
    for n in (4095, 4096, 65535, 65536) if k > 1 else (4096,):
        out.append((3, data(n)))
    for n in (32767, 32768, 33000, 40000) if k > 1 else (rng.choice([32768, 33000, 36864]),):
        out.append((2, word(0) + word(5) + data(5) + word(0x1000) + word(n) + data(n) + word(5) + word(3) + data(3)))
        out.append((2, word(0) + word(n) + data(n) + word(5) + word(20) + data(20)))
        out.append((1, word(5) + data(n)))
    out.append((2, word(0) + word(4100) + data(4100) + word(5) + word(3) + data(3)))
    return out


def convert(ftohex, fmt, data, scratch, to_stdout):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        with open(os.path.join(d, "in.bin"), "wb") as f:
            f.write(data)
        code, out = run([ftohex, str(fmt), "in.bin"] + ([] if to_stdout else ["out.hex"]), d)
        text = out if to_stdout else read(os.path.join(d, "out.hex")) or b""
        lines = [l[:-1] if l and l[-1] == 13 else l for l in split_lines(text)]
        if len(lines) > 8000:                            # far more than any input here needs
            lines = lines[:8000]
        return {"fmt": fmt, "in": codes(data), "lines": lines, "exit": code}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(records, scratch, timeout):
    bads = []
    ok = [r for r in records if r["exit"] == 0 and len(r["lines"]) > 2][:40:20]
    extra = []
    for r in ok:
        for f in ("digit", "missing", "twice", "noend", "after", "exit"):
            c = copy.deepcopy(r)
            l = c["lines"]
            if f == "digit":
                l[0][9] = 48 + (l[0][9] - 47) % 10
            elif f == "missing":
                del l[0]
            elif f == "twice":
                l.insert(0, l[0])
            elif f == "noend":
                l.pop()
            elif f == "after":
                l.append(l[0])
            else:
                c["exit"] = 1
            extra.append(c)
    res, st = check_records(records + extra, scratch, timeout, "Hex")
    bads = [(i, v["diffs"]) for i, v in enumerate(res[:len(records)]) if v["diffs"]]
    missed = sum(1 for v in res[len(records):] if not v["diffs"])
    undecided = [v["error"] for v in res if "error" in v]
    if undecided and not bads:
        raise MachineryError("TLC could not evaluate %d records: %s" % (len(undecided), undecided[0]))
    if missed and not bads:
        raise MachineryError("%d corrupted HEX files were accepted" % missed)
    return bads, st, len(extra)


def digest(fmt, data):
    return hashlib.sha1(b"%d" % fmt + data).hexdigest()[:12]


def check(a, dasm, ftohex, rng, scratch, timeout):
    k = 1 if a.tier == "quick" else 12
    ins = files(rng, k)
    progs = [p for p in props1.gen_C09(rng, 1)]
    progs = rng.sample(progs, min(len(progs), 150 * k))
    with ThreadPoolExecutor(dasmlib.CPUS) as ex:
        for p, o in zip(progs, ex.map(lambda p: observe(dasm, p, scratch), progs)):
            if o["exit"] == 0:
                ins.append((p.fmt, bytes(o["out"])))
    todo = [(f, d, n % 9 == 0) for n, (f, d) in enumerate(ins)]
    hung = [0]

    def one(x):
        if hung[0] >= 4:
            return None
        r = convert(ftohex, x[0], x[1], scratch, x[2])
        hung[0] += r["exit"] < -100
        return r
    with ThreadPoolExecutor(dasmlib.CPUS) as ex:
        recs = list(ex.map(one, todo))
    keep = [j for j, r in enumerate(recs) if r is not None]
    bads, st, nc = judge([recs[j] for j in keep], scratch, timeout * .6)
    failures = []
    if bads:
        again = [keep[i] for i, _ in bads[:5]]
        bads2, _, _ = judge([convert(ftohex, todo[j][0], todo[j][1], scratch, todo[j][2]) for j in again], scratch, timeout * .25)
        for i, d in bads2:
            f, b, s = todo[again[i]]
            failures.append((["difference: format %d: %s" % (f, x) for x in d], {"property": a.id, "hex": {"fmt": f, "in": b.hex(), "stdout": s}, "digest": digest(f, b)}))
    cov = {"states": st["states"], "transitions": st["transitions"], "traces_validated_against_impl": len(keep), "samples": [
        {"fmt": f, "in": b.hex()[:200]} for f, b, _ in todo[60:62]], "corrupted_records_rejected": nc,
        "hex_records": sum(len(recs[j]["lines"]) for j in keep)}
    return failures, cov, len(keep)


def replay(a, d, ftohex, scratch):
    x = d["hex"]
    bads, _, _ = judge([convert(ftohex, x["fmt"], bytes.fromhex(x["in"]), scratch, x["stdout"])], scratch, 800)
    for _, ds in bads:
        print(ds)
    print("VIOLATION property=%s replay=%s" % (a.id, a.replay) if bads else "replay: no difference")
    return 1 if bads else 0
