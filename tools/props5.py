"""Programs for the properties of the command line."""
from dasmlib import Prog

NUMBERS = ["0", "1", "2", "3", "4", "-1", "", "02", " 1", "+1", "1x", "x", "9", "\t2", "-0", "+", "2 1", "0x2", "12", "1.5", "--1"]
BAD = ["-q", "-", "", "x", "m.asm", "--", "-e1", "-F1", "-h", "-?", "//", "/", "-V", "-t0", "-r", "-i", "-O", "-Z", "--help", "-a", "o.bin", "=", "-8", "- o", " -S", "\\S"]


def options(rng, bad=.0):
    """One option, as its text without the first character."""
    w = rng.randrange(16)
    name = lambda *xs: rng.choice(xs + (xs if bad == 0 else ("",)))
    if w == 0:
        return "E" + (rng.choice(NUMBERS) if rng.random() < bad else rng.choice(["0", "1", "2", "", "02", " 1", "+1", "1x", "x"]))
    if w == 1:
        return "T" + (rng.choice(NUMBERS) if rng.random() < bad else rng.choice(["0", "1", "2", "", "02", " 2", "+1", "1x", "x"]))
    if w == 2:
        return "f" + (rng.choice(NUMBERS) if rng.random() < bad else rng.choice(["1", "2", "3", "02", "+3", " 2", "3x"]))
    if w == 3:
        return "o" + name("o.bin", "sub/o.bin", "x", "-S", "O.BIN", "a.out", "a b", "=o", "none/o.bin" if rng.random() < .3 else "o.o")
    if w == 4:
        return "l" + name("l.lst", "sub/l.lst", "list", "none/l.lst" if rng.random() < .2 else "L")
    if w == 5:
        return "L" + name("l.lst", "sub/l.lst", "all.lst", "none/l.lst" if rng.random() < .2 else "L")
    if w == 6:
        return "s" + name("s.sym", "sub/s.sym", "symbols", "none/s.sym" if rng.random() < .2 else "S")
    if w == 7:
        return "p" + (rng.choice(NUMBERS) if rng.random() < bad else rng.choice(["1", "2", "3", "4", "5", "10", "20", "0", "+3", " 4"]))
    if w == 8:
        return "P" + (rng.choice(NUMBERS) if rng.random() < bad else rng.choice(["1", "2", "3", "4", "5", "10", "20", "+3", " 4"]))
    if w == 9:
        return "m" + (rng.choice(["64", "0", "", "x", "-1", "63", "-100", "64x"]) if rng.random() < bad else rng.choice(["65", "66", "70", "100", "1000", "+65", "0065", "65x"]))
    if w == 10:
        return rng.choice(["S", "Sx", "S"])
    if w == 11:
        return rng.choice(["R", "R", "Rx"])
    if w == 12:
        return "d" + rng.choice(["", "0", "x"]) if rng.random() < .5 else "v" + rng.choice(["", "0"])
    if w == 13:
        return "I" + rng.choice(["d1", "d2", "d2/", "nodir", "d1", "d2", "sub"])
    if w == 14:
        return "M" + rng.choice(["mm", "mn"]) + rng.choice(["=aa+1", "=5", "=$10", "=aa*2", "=mn", "", "=1"])
    return "D" + rng.choice(["aa", "bb", "cc", "aa", "Aa"]) + rng.choice(["=5", "=$10", "=%101", "", "='x", "=3+4", "=\"str\"", "=aa+1", "=bb", "=-1", "=300", "=0", "=1=1"])


def command_source(rng):
    """A program every option has an effect on."""
    out = ["\tprocessor %s" % rng.choice(["6502", "6502", "68705", "f8"]), "\torg $%x" % rng.choice([0, 0x80, 0xf0, 0x1000])]
    for _ in range(rng.randint(2, 7)):
        w = rng.randrange(14)
        if w < 2:
            v = rng.choice(["aa", "bb", "cc", "mm", "mn", "Aa"])
            out += ["\tifconst " + v, rng.choice(["\tdc.w ", "\tdc ", "\tdc.l "]) + v, "\telse", "\tdc 7", "\tendif"]
        elif w == 2:
            out.append("\techo \"value\",%s" % rng.choice(["7", "lab", "*", "[*]d"]))
        elif w == 3:
            out.append("\tinclude \"%s\"" % rng.choice(["inc.h", "inc.h", "two.h"]))
        elif w == 4:
            out.append("\tincbin \"%s\"" % rng.choice(["dat.bin", "two.bin"]))
        elif w == 5:
            n = rng.randint(1, 5)                         # settles after some passes
            b = len(out)
            out += ["\tdc.w q%d_%d" % (b, 0)] + ["q%d_%d\tequ q%d_%d+1" % (b, i, b, i + 1) for i in range(n)] + ["q%d_%d\tequ 9" % (b, n)]
        elif w == 6:
            out.append(rng.choice(["\tnonsense", "\tdc.b $fff", "\tdc 300", "\tdc.w 70000", "\tdc -200"]))
        elif w == 7:
            out.append(rng.choice(["\terr", "\tdc.w undefd", "\tdc.w lab", "\tendm", "\tinclude \"gone.h\""]))
        elif w == 8:
            out.append(rng.choice(["\torg *+%d" % rng.choice([5, 70]), "\tds 9,1", "\torg $%x" % rng.choice([0x2000, 0x10])]))
        elif w == 9:
            out.append(rng.choice(["\tds 66000", "\tds 68000,1", "\torg *+67000"]))
        elif w == 10:
            out += ["zz%d\tequ %d" % (len(out), rng.randint(0, 900)), "ab%d\tset \"text\"" % len(out)]
        else:
            out += ["L%d" % len(out), "\tdc %d,<*" % rng.randint(0, 255)]
    out.append("lab\tdc.w lab" if rng.random() < .8 else "lab")
    if rng.random() < .1:
        out.insert(2, rng.choice(["/* never closed", "\tif 0", "\tend"]))
    return "\n".join(out) + "\n"


def command_files(rng):
    files = {"m.asm": command_source(rng), "sub/m.asm": command_source(rng), "d1/inc.h": "\tdc 11\n", "d2/inc.h": "\tdc 22,22\n",
             "d2/two.h": "\tdc 2\n", "inc.h": "\tdc 1\n", "-x.asm": command_source(rng)}
    bins = {"d1/dat.bin": b"one", "d2/dat.bin": b"two2", "d2/two.bin": b"22"}
    for n in ("inc.h", "-x.asm", "sub/m.asm"):
        if rng.random() < .6:
            del files[n]
    for n in ("a.out", "o.bin", "l.lst", "s.sym", "sub/o.bin", "unrelated"):
        if rng.random() < .35:
            bins[n] = b"old contents\n" * rng.choice([1, 60])
    return files, bins


def gen_C22(rng, k):
    ps = []
    mains = ["m.asm"] * 12 + ["sub/m.asm", "sub/m.asm", "-x.asm", "-x.asm", "none/m.asm"]

    def add(opts, main=None, note=""):
        files, bins = command_files(rng)
        main = main or rng.choice(mains)
        if main not in files:
            main = rng.choice(["m.asm"] * 12 + ["no.asm"])
        o = [("/" if rng.random() < .12 else "-") + x for x in opts]
        p = Prog(files, bins, argv=[main] + o, note=note)
        ps.append(p)
        return p
    for i in range(500 * k):                              # options in any order
        o = [options(rng) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8]))]
        add(o)
    for i in range(150 * k):                              # the same options in another order
        o = [options(rng) for _ in range(rng.randint(2, 5))]
        p = add(o)
        a = p.argv[1:]
        rng.shuffle(a)
        ps.append(Prog(p.files, p.bins, argv=p.argv[:1] + a))
    for i in range(200 * k):                              # values at the limits of what is allowed
        o = [options(rng, .8) for _ in range(rng.randint(1, 4))]
        add(o)
    for b in BAD:                                         # what is no option
        for _ in range(2 * k):
            p = add([options(rng) for _ in range(rng.randint(0, 4))])
            p.argv.insert(rng.randint(1, len(p.argv)), b)
    for x in "EfTpPm":
        for v in NUMBERS + ["64", "65", "63"]:
            p = add([options(rng) for _ in range(rng.randint(0, 2))] + [x + v])
            if rng.random() < .5:
                p.argv.append("-R")
    for x in "olLsDMI":
        for _ in range(2):
            p = add([options(rng) for _ in range(rng.randint(0, 2))])
            if x not in "DM":
                p.argv.insert(rng.randint(1, len(p.argv)), "-" + x)
    for _ in range(3):
        files, bins = command_files(rng)
        ps.append(Prog(files, bins, argv=[]))
        ps.append(Prog(files, bins, argv=[rng.choice(["-o", "-x", "/S", ""])]))
    return ps
