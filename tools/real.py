"""The programs the repository comes with, and what becomes of them when lines are lost, doubled or exchanged."""
import glob
import os
import re

import dasmlib
from dasmlib import Prog

INCLUDE = re.compile(rb'^\S*\s+[.#]?include\s+"?([^"\s;]+)"?', re.I | re.M)
INCBIN = re.compile(rb'^\S*\s+[.#]?incbin\s+"?([^"\s;,]+)"?', re.I | re.M)
MACHINES = "atari2600 atari7800 channel-f 68hc11 68hc908".split()


def whole(text, base, note, **kw):
    """A program with the files it includes, found in base, the directories of the machines or of the tests."""
    dirs = [base] + [os.path.join(dasmlib.REPO, "machines", m) for m in MACHINES] + [os.path.join(dasmlib.REPO, "test")]
    files, bins = {"m.asm": text}, {}

    def find(name):
        for d in dirs:
            path = os.path.join(d, name)
            if not name.startswith(("/", ".")) and os.path.isfile(path):
                with open(path, "rb") as f:
                    return f.read()
        return None

    def follow(data):
        for m in INCLUDE.findall(data):
            n = m.decode("latin-1")
            if n not in files and (d := find(n)) is not None:
                files[n] = d
                follow(d)
        for m in INCBIN.findall(data):
            n = m.decode("latin-1")
            if n not in bins and (d := find(n)) is not None:
                bins[n] = d
    follow(text)
    return Prog(files, bins, note=note, **kw)


def sources(most=1 << 20):
    """Paths of the programs, and their texts."""
    for path in sorted(glob.glob(os.path.join(dasmlib.REPO, "test", "*.asm")) + glob.glob(os.path.join(dasmlib.REPO, "test", "*", "*.asm"))):
        with open(path, "rb") as f:
            text = f.read()
        if len(text) <= most and b"\0" not in text:
            yield path, text


def real(pick=lambda name: True, most=1 << 20, **kw):
    return [whole(t, os.path.dirname(p), os.path.basename(p), **kw) for p, t in sources(most) if pick(os.path.relpath(p, os.path.join(dasmlib.REPO, "test")))]


def headers():
    """Every header of a machine on its own, and twice."""
    out = []
    for m, cpu, names in (("atari2600", "6502", "vcs.h macro.h"), ("atari7800", "6502", "7800.h macro.h"), ("channel-f", "f8", "ves.h macro.h"),
                          ("68hc11", "68HC11", "68hc11a1.asm 68hc11e1.asm 68hc811e2.asm register.asm"),
                          ("68hc908", "68908", "bits68hc908.asm macros.asm mc68hc908jb8.asm mc68hc908jk1.asm mc68hc908jk3.asm mc68hc908mr32.asm")):
        for n in names.split():
            base = os.path.join(dasmlib.REPO, "machines", m)
            out.append(whole(("\tprocessor %s\n\tinclude \"%s\"\n\torg $2000\nhere\tdc.w here\n" % (cpu, n)).encode(), base, n))
    return out


def damaged(rng, count, most=2400, times=3):
    """Programs of which some lines were lost, doubled or exchanged."""
    pool = [(p, t) for p, t in sources(most) if b"\n" in t]
    out = []
    for _ in range(count if pool else 0):
        p, t = rng.choice(pool)
        lines = t.split(b"\n")
        for _ in range(rng.randint(1, times)):
            i, j = rng.randrange(len(lines)), rng.randrange(len(lines))
            how = rng.randrange(4)
            if how == 0:
                del lines[i]
            elif how == 1:
                lines.insert(j, lines[i])
            elif how == 2:
                lines[i], lines[j] = lines[j], lines[i]
            else:
                other = rng.choice(pool)[1].split(b"\n")
                lines.insert(i, rng.choice(other))
            if not lines:
                lines = [b""]
        text = b"\n".join(lines)
        if max(map(len, lines)) < 900:
            out.append(whole(text, os.path.dirname(p), "damaged " + os.path.basename(p)))
    return out
