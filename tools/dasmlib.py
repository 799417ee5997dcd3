"""Running dasm, recording what it did, and checking the record against the specification."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DASM_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAXFS_DEFAULT = 640 * 1024
CPUS = max(2, os.cpu_count() or 2)


class MachineryError(Exception):
    """Something other than the code under test went wrong."""


# ------------------------------------------------------------------ building
def build(scratch):
    """Build dasm and ftohex from the working tree into scratch; None if it does not compile."""
    src = os.path.join(scratch, "src")
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("*.o", "dasm", "ftohex"))
    r = subprocess.run(["make", "-C", src, "-j8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    dasm, ftohex = os.path.join(src, "dasm"), os.path.join(src, "ftohex")
    if r.returncode or not os.path.exists(dasm) or not os.path.exists(ftohex):
        raise MachineryError("build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    return dasm, ftohex


WATCH = "gcc -g -fsanitize=address,bounds -fsanitize-undefined-trap-on-error"


def build_watched(scratch):
    """dasm and ftohex that stop with status 99 or a signal on an access outside an object, or None: not available here."""
    global WATCHED, TIMEOUT
    src = os.path.join(scratch, "watched")
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("*.o", "dasm", "ftohex"))
    r = subprocess.run(["make", "-C", src, "-j8", "CC=" + WATCH], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    pair = tuple(os.path.join(src, n) for n in ("dasm", "ftohex"))
    if r.returncode or not all(map(os.path.exists, pair)):
        return None
    WATCHED, was, TIMEOUT = True, TIMEOUT, 20
    d = tempfile.mkdtemp(dir=scratch)
    with open(os.path.join(d, "a"), "w") as f:
        f.write(" processor 6502\n org 0\n dc 1\n")
    # the smallest programs work: the sanitizer itself is at home here
    if [run([pair[0], "a", "-ob"], d)[0] for _ in range(5)] + [run([pair[1], "1", "b"], d)[0]] != [0] * 6:
        WATCHED, TIMEOUT = False, was
        return None
    return pair


# ------------------------------------------------------------------ programs
class Prog:
    """A program: source files, binary files and command line options."""

    def __init__(self, files, bins=None, main="m.asm", fmt=1, errfmt=0, strict=False, maxkb=0, maxp=10, allp=False,
                 remove=False, sort=0, defs=(), last=False, symfile=True, extra=(), argv=None, note=""):
        if isinstance(files, (str, bytes)):
            files = {main: files}
        self.files = {k: v.encode("latin-1") if isinstance(v, str) else v for k, v in files.items()}
        self.bins = dict(bins or {})
        self.main, self.fmt, self.errfmt, self.strict = main, fmt, errfmt, strict
        self.maxkb, self.maxp, self.allp, self.remove, self.sort = maxkb, maxp, allp, remove, sort
        self.defs = list(defs)          # "-Dname=expr", "-Mname=expr", "-Idir" in order
        self.last, self.symfile, self.note = last, symfile, note
        self.extra = list(extra)        # options the specification says have no effect
        self.argv = argv                # a command line of its own, which the specification reads itself

    def args(self, lst="out.lst", mode="-L"):
        if self.argv is not None:
            return list(self.argv)
        a = [self.main, "-oout.bin", "-f%d" % self.fmt, mode + lst]
        if self.symfile:
            a.append("-sout.sym")
        if self.errfmt:
            a.append("-E%d" % self.errfmt)
        if self.sort:
            a.append("-T%d" % self.sort)
        if self.strict:
            a.append("-S")
        if self.remove:
            a.append("-R")
        if self.maxkb:
            a.append("-m%d" % self.maxkb)
        if self.allp:
            a.append("-P%d" % self.maxp)
        elif self.maxp != 10:
            a.append("-p%d" % self.maxp)
        return a + self.defs + self.extra

    def chatty(self):
        """Standard output carries more than the specification describes."""
        return any(x[:2] in ("-v", "-d") for x in self.extra) or any(x[1:2] == "v" and x != "-v0" for x in self.argv or ())

    def to_json(self):
        d = dict(self.__dict__)
        d["files"] = {k: v.decode("latin-1") for k, v in self.files.items()}
        d["bins"] = {k: v.hex() for k, v in self.bins.items()}
        return d

    @staticmethod
    def from_json(d):
        d = dict(d)
        bins = {k: bytes.fromhex(v) for k, v in d.pop("bins").items()}
        return Prog(d.pop("files"), bins, **d)


def codes(s):
    return list(s if isinstance(s, (bytes, bytearray)) else s.encode("latin-1"))


def split_lines(b):
    return [codes(x) for x in b.split(b"\n")[:-1]] if b.endswith(b"\n") else [codes(x) for x in b.split(b"\n")] if b else []


def source_lines(b):
    parts = b.split(b"\n")
    out = [codes(p + b"\n") for p in parts[:-1]]
    if parts[-1]:
        out.append(codes(parts[-1]))
    return out


def expand(l):
    out = []
    for c in l:
        if c == 9:
            out.extend([32] * (8 - len(out) % 8))
        else:
            out.append(c)
    return out


def norm(l):
    """Same as Norm in Trace.tla."""
    e = expand(l)
    out = e[:43]
    prev = 0
    for c in e[43:]:
        if not (c == 32 and prev == 32):
            out.append(c)
        prev = c
    while out and out[-1] == 32:
        out.pop()
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if WATCHED:                         # the sanitizer reserves much, and its frames are larger
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        want = 128 << 20
        resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
    else:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


TIMEOUT = 6
WATCHED = False
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0")


def run(cmd, cwd, timeout=None):
    """(exit status, stdout); -1000 for a time out, minus the signal number for a crash."""
    try:
        r = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout or TIMEOUT, preexec_fn=limits, env=ENV)
        return r.returncode, r.stdout[:4 << 20]
    except subprocess.TimeoutExpired as e:
        return -1000, (e.stdout or b"")[:1 << 20]


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read(16 << 20)
    except FileNotFoundError:
        return None


def materialize(prog, d):
    for name, data in list(prog.files.items()) + list(prog.bins.items()):
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


# what TRACE and an illegal character print for debugging is not compared
DEBUG = re.compile(rb"PC: [0-9a-f]+  MNEMONIC: \S*  addrmode: \d+  |mnemask: [^\n]*\n|final addrmode = [^\n]*\n|INFO: Label '[^\n]*\n"
                   rb"|char = '[^\n]*\n")


def split_stdout(b):
    """(lines, unresolved symbol lines)"""
    b = DEBUG.sub(b"", b)
    lines, unres, inside, skip = [], [], False, False
    for l in split_lines(b):
        t = bytes(l)
        if inside:
            if re.match(rb"--- \d+ Unresolved Symbol", t):
                inside, skip = False, True
            else:
                unres.append(norm(l))
        elif skip and not l:
            skip = False
        elif t == b"--- Unresolved Symbol List":
            inside = True
        else:
            lines.append(norm(l))
    return lines, unres


def cap(obs, most=6000):
    """A run gone wrong may write without end: what is kept is longer than anything the programs here ask for,
    unless the run had to be stopped."""
    hung = obs["exit"] == -1000
    for key, n in (("out", 200000), ("list", most), ("stdout", 3000), ("unres", 3000), ("sym", 3000), ("last", most)):
        if hung:
            n = 100
        if len(obs[key]) > n:
            obs[key] = obs[key][:n]


def tree(prog, d):
    """The files in the directory: name, whether it is as the program had it, bytes, lines."""
    was = {**prog.files, **prog.bins}
    out = []
    for where, _, names in os.walk(d):
        for n in names:
            path = os.path.join(where, n)
            rel, data = os.path.relpath(path, d), read(path) or b""
            same = was.get(rel) == data
            out.append([codes(rel), same, [] if rel in prog.files and same else codes(data[:200000]),
                        [] if rel in prog.files and same else [norm(l) for l in split_lines(data[:400000])][:6000]])
    return sorted(out)


def observe(dasm, prog, scratch):
    """Run dasm on the program in a directory of its own and record what it did."""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        materialize(prog, d)
        code, out = run([dasm] + prog.args(), d)
        stdout, unres = split_stdout(out)
        outfile, lst, sym = (read(os.path.join(d, n)) for n in ("out.bin", "out.lst", "out.sym"))
        obs = {"exit": code, "out": codes(outfile or b""), "hasout": outfile is not None, "stdout": stdout, "unres": unres,
               "list": [norm(l) for l in split_lines(lst or b"")], "sym": [norm(l) for l in split_lines(sym or b"")],
               "passes": 0, "last": [], "tree": tree(prog, d) if prog.argv is not None else []}
        head = codes("------- FILE " + prog.main + " LEVEL 1 PASS ")
        obs["passes"] = sum(1 for l in obs["list"] if l[:len(head)] == head)
        if prog.last:
            code2, out2 = run([dasm] + prog.args("last.lst", "-l"), d)
            obs["last"] = [norm(l) for l in split_lines(read(os.path.join(d, "last.lst")) or b"")]
            out3 = read(os.path.join(d, "out.bin"))
            if code2 != code or out2 != out and not prog.chatty() or out3 != outfile:
                obs["exit"] = -2000          # -l and -L must not differ in anything else
        cap(obs)
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def test_record(prog, obs):
    defs = []
    for a in prog.defs:
        k, rest = a[1], a[2:]
        if k == "I":
            defs.append({"k": "I", "name": [], "val": codes(rest)})
        else:
            name, eq, val = rest.partition("=")
            defs.append({"k": k, "name": codes(name), "val": codes(val if eq else "0")})
    return {"files": [[codes(k), source_lines(v)] for k, v in sorted(prog.files.items())],
            "bins": [[codes(k), codes(v)] for k, v in sorted(list(prog.bins.items()) + list(prog.files.items()))],
            "opt": {"main": codes(prog.main), "fmt": prog.fmt, "errfmt": prog.errfmt, "strict": prog.strict,
                    "maxfs": prog.maxkb * 1024 or MAXFS_DEFAULT, "maxp": prog.maxp, "allp": prog.allp, "remove": prog.remove,
                    "sort": prog.sort, "defs": defs, "last": prog.last, "symfile": prog.symfile,
                    "said": [], "bad": False, "cant": [0]},
            "cmd": prog.argv is not None, "argv": [codes(a) for a in prog.argv or ()], "obs": obs}


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, scratch, env=None, workers=None, timeout=800, xmx="6g", extra=(), c2=None):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-Xmx" + xmx, "-Xss256m", "-Djava.io.tmpdir=" + meta, "-XX:+UseSerialGC"] + ([] if (C2 if c2 is None else c2) else ["-XX:TieredStopAtLevel=1"]) + ["-cp", JARS, "tlc2.TLC", "-workers", str(workers or 1),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b"").decode("utf-8", "replace") + "\nError: TLC timed out: %s %s\n" % (module, cfg)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode("utf-8", "replace")


C2 = False     # the optimising compiler pays off in long runs only
RESULT = re.compile(r'^<<"RESULT", (\d+), (-?\d+), (\d+), (\d+), "(.*)", "(.*)">>$')


def errors(out):
    """What TLC says went wrong, without the states."""
    k = out.find("Error:")
    return out[k:k + 3000] if k >= 0 else out[-3000:]


def check_shard(records, scratch, timeout, module="Trace"):
    t0 = time.time()
    path = os.path.join(tempfile.mkdtemp(dir=scratch), "tests.ndjson")
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    rc, out = tlc(module + ".tla", module + ".cfg", scratch, {"TESTS": path}, timeout=timeout, xmx="3g")
    shutil.rmtree(os.path.dirname(path))
    results = [None] * len(records)
    for line in out.splitlines():
        m = RESULT.match(line)
        if m:
            diffs, cov = (json.loads(re.sub(r"\\(.)", r"\1", g)) for g in m.group(5, 6))
            diffs = [json.loads(d) if isinstance(d, str) else d for d in diffs]
            results[int(m.group(1)) - 1] = {"exit": int(m.group(2)), "pass": int(m.group(3)), "steps": int(m.group(4)), "diffs": diffs, "cov": cov}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    states, trans = (int(m.group(2)), int(m.group(1))) if m else (0, 0)
    missing = [i for i, r in enumerate(results) if r is None]
    left = timeout - (time.time() - t0)
    if rc != 0 and missing and len(records) > 1 and left > 20:
        # TLC stops at the first record it cannot evaluate: find it, decide the others
        for part in (missing[::2], missing[1::2]):
            if part:
                left = timeout - (time.time() - t0)
                more, st, tr = check_shard([records[i] for i in part], scratch, max(left - 10, 10), module)
                states, trans = states + st, trans + tr
                for i, r in zip(part, more):
                    results[i] = r
    elif rc != 0 or missing or not m:
        for i in missing or range(len(records)):
            results[i] = {"exit": 0, "pass": 0, "steps": 0, "diffs": [], "cov": [], "error": errors(out)}
    return results, states, trans


def check_records(records, scratch, timeout=800, module="Trace"):
    """Check recorded runs with TLC: (list of results by record, statistics)."""
    k = max(1, min(CPUS, len(records) // 4))
    parts = [records[i::k] for i in range(k)]
    with ThreadPoolExecutor(k) as ex:
        done = list(ex.map(lambda p: check_shard(p, scratch, timeout, module), parts))
    results = [None] * len(records)
    for i, (r, _, _) in enumerate(done):
        results[i::k] = r
    return results, {"states": sum(d[1] for d in done), "transitions": sum(d[2] for d in done)}


def text(c):
    if isinstance(c, list) and all(isinstance(x, int) for x in c):
        return bytes(x % 256 for x in c).decode("latin-1")
    return c
