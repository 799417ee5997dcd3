"""Further programs for the properties: combinations the generators of props1 and props2 do not reach."""
import itertools

import props1
import props2
from dasmlib import Prog
from gen import CPUS, ISA, prog
from props1 import AUX, BIN, C04HEAD, C04TAIL, source
from real import damaged, headers, real
from rich import rich

HEAD = ["\tprocessor 6502", "\torg $1000"]


def src(lines, files=None, bins=None, **kw):
    d = {"m.asm": "\n".join(lines) + "\n"}
    d.update(files or {})
    return Prog(d, bins or BIN, **kw)


def wrap(rng, body, depth=1):
    """The lines in a place: a macro call (of a call), an included file, a loop, a condition, a relocated stretch.  (lines, files)"""
    files = {}
    for lv in range(depth):
        ops = {l.split("\t")[1].split()[0].lower().lstrip(".#") for l in body if l.count("\t") and l.split("\t")[1].split()}
        hows = ["inc", "if1", "else", "sub", "rorg", "rep1", "ifc", "listoff", "cmt"]
        if not ops & {"mac", "macro", "endm", "mexit"} and not any("{" in l for l in body):
            hows += ["mac", "mac2", "macarg", "macinc"]
        how = rng.choice(hows)
        u = "%d%d" % (lv, rng.randint(0, 99))
        if how == "inc":
            files["w%s.h" % u] = "\n".join(body) + rng.choice(["\n", ""])
            body = ["\tinclude \"w%s.h\"" % u]
        elif how == "if1":
            body = ["\tif 1"] + body + ["\tendif"]
        elif how == "else":
            body = ["\tif 0", "\tfrob", "\telse"] + body + ["\tendif"]
        elif how == "sub":
            body = ["\tsubroutine"] + body + ["\tsubroutine"]
        elif how == "rorg":
            body = ["\trorg $f000"] + body + ["\trend"]
        elif how == "rep1":
            body = ["\trepeat %d" % rng.choice([1, 1, 2])] + body + ["\trepend"]
        elif how == "ifc":
            body = ["\tifnconst w_nodef"] + body + ["\tendif"]
        elif how == "listoff":
            body = ["\tlist off"] + body + ["\tlist on"]
        elif how == "cmt":
            body = ["/* start"] + ["\tfrob", "*/"] + body + ["; end"]
        elif how == "mac":
            body = ["\tmac wm%s" % u] + body + ["\tendm", "\twm%s" % u]
        elif how == "mac2":
            body = ["\tmac wm%s" % u] + body + ["\tendm", "\tmac wn%s" % u, "\tdc 1", "\twm%s {1}" % u, "\tdc 2", "\tendm", "\twn%s 5" % u]
        elif how == "macarg":
            body = ["\tmac wm%s" % u, "\tif {1}"] + body + ["\tendif", "\tendm", "\twm%s 0" % u, "\twm%s 1" % u]
        else:
            files["w%s.h" % u] = "\n".join(body) + "\n"
            body = ["\tmac wm%s" % u, "\tinclude \"w%s.h\"" % u, "\tendm", "\twm%s" % u]
    return body, files


def cross(rng, n, but=()):
    """n programs of each other generator"""
    ps = []
    for m in (props1, props2):
        for g in sorted(x for x in dir(m) if x.startswith("gen_C") and x[4:] not in but):
            qs = [q for q in getattr(m, g)(rng, 1) if not q.extra]
            ps += rng.sample(qs, min(n, len(qs)))
    return ps


def reopt(rng, p, **kw):
    for a, b in kw.items():
        setattr(p, a, rng.choice(b))
    return p


def selfref():
    """An unmatched quote leaves references to arguments in the arguments of a call: they may refer to themselves."""
    ps = []
    for inner in ("{3}", "{2}", "{1}", "{0}", "1,{3}+{2}", "{2}{2}"):
        for refs in ("{1},{2},{3}", "{1},{3},{2}", "{1},{1},{2}", "{1},x{2},{3}", "{1},{3}{2},{3}", "{1},2,3"):
            for call in ('"a,b",c', '"a",2,3', '"a,2'):
                ps.append(src(["\tprocessor 6502", "\torg $1000", "\tmac n", "\tdc.b " + inner, "\tendm", "\tmac m", "\tn " + refs, "\tendm",
                               "a\tequ 1", "b\tequ 2", "c\tequ 3", "\tm " + call, "\tdc 9"]))
    return ps


# ---------------------------------------------------------------- C01
def more_C01(rng, k):
    ps = real(most=4000 if k == 1 else 1 << 20) + damaged(rng, 50 * k, 1200 if k == 1 else 2400)
    return ps + rich(rng, 60 * k, dict(dwf=10, ifs=7, rorg=3, ds=4, align=3, odd=0))


# ---------------------------------------------------------------- C02
def delims(rng, n):
    """Lines made of comment delimiters in every order."""
    ps = []
    for ln in range(1, 4):
        seqs = list(itertools.product(["*/", "/*", ";", "dc 1", '"x"', "endif"], repeat=ln))
        for q in seqs if ln < 3 or n > 1 else rng.sample(seqs, 60):
            t = rng.choice(["\t", "\tdc 2 ", "l\t", "\tendif "]) + rng.choice(["", " "]).join(q)
            ps.append(prog(["\tprocessor 6502", "\torg $1000", "\tif 1", "\tdc 3", t, "\tdc 4", "*/" if rng.random() < .2 else "", "\tdc 5", "\tendif" if rng.random() < .6 else "", "\tdc 6"], errfmt=rng.choice([0, 1, 2])))
    return ps


def more_C02(rng, k):
    ps = delims(rng, k)
    for cpu, t in rng.sample([("6502", t) for t in props1.FAULTS6502] + props1.FAULTSX, 90 if k == 1 else 150) * (1 if k == 1 else 3):
        if "/*" in t or "mac" in t:
            continue
        b, f = wrap(rng, rng.choice([[], ["\tdc 1"], [""]]) + t.split("\n"), rng.choice([2, 2, 3]))
        ps.append(src(["\tprocessor " + CPUS[cpu], "\torg $1000", "\tdc 1"] + b + ["\tdc 2"], f, errfmt=rng.choice([0, 1, 2]), remove=rng.random() < .5, fmt=rng.choice([1, 2, 3]), maxp=rng.choice([10, 10, 1, 2])))
    ps += [reopt(rng, p, errfmt=[0, 1, 2], remove=[True, False]) for p in cross(rng, 14 * k, ("C02",))]
    ps += rich(rng, 60 * k, dict(odd=5))
    # failures that only show at the end, with and without -R and a symbol file
    late = [["\tdc.w undefd"], ["\tif 1", "\tdc 1"], ["\tmac open", "\tdc 1"], ["/* open"], ["\tds l", "l\tdc 1"], ["\trepeat 2", "\tdc 1"], ["\torg undefd"], ["\tinclude \"o.h\""], ["a\tequ b", "b\tequ a"], ["\tds l2-l1", "l1\tds l1-$1000", "l2"], ["\tseg.u u", "\tdc.w undefd"], ["\tifconst undefd", "\tendif"],
            ["\tdc.w a", "a\tset undefd"], ["\techo undefd"], ["\talign undefd"], ["\tds 1,undefd"], ["\tbne undefd"], ["\trorg undefd", "a\tdc.w a"], ["\trepeat undefd", "\tdc 1", "\trepend"], ["x\teqm undefd"], ["x\teqm undefd", "\tdc x"], ["\tincbin \"d.bin\",undefd"], ["\tif undefd", "\tdc 1", "\tendif"], ["x\tequ undefd"], ["x\tset undefd"], ["\torg $1000,undefd"]]
    for t in late:
        for rm in (False, True):
            for f in (1, 2, 3) if k > 1 else (rng.choice([1, 2, 3]),):
                ps.append(src(["\tprocessor 6502", "\torg $1000", "\tdc 5"] + t, {"o.h": "\tif 1\n\tdc 3\n"}, remove=rm, fmt=f, symfile=rng.random() < .6, errfmt=rng.choice([0, 1, 2]), maxp=rng.choice([10, 10, 1, 2, 3]), allp=rng.random() < .3))
    return ps


# ---------------------------------------------------------------- C03
def more_C03(rng, k):
    ps = [reopt(rng, p, maxp=[10, 10, 10, 1, 2, 3, 4, 12], allp=[True, False]) for p in cross(rng, 12 * k, ("C03", "C04", "C05", "C06"))]
    ps += rich(rng, 60 * k, dict(dwf=8, ifs=7), maxp=10)
    ps += rng.sample(selfref(), 40)
    # each pass settles another thing, or a different thing at the same count
    for n in (2, 3, 4, 5, 6, 8, 9):
        for kind in ("if", "ds", "org", "rep", "align", "equ"):
            out = ["\tprocessor 6502", "\torg $1000"]
            for i in range(n):
                nx = "q%d" % (i + 1)
                out += {"if": ["\tif %s&1" % nx, "\tdc 1", "\telse", "\tdc 1", "\tendif", "q%d\tequ %s+1" % (i, nx)], "ds": ["\tds %s&3" % nx, "q%d\tequ %s" % (i, nx)], "org": ["\tdc %s&1" % nx, "q%d\tequ %s" % (i, nx)],
                        "rep": ["\trepeat %s&1" % nx, "\tdc 1", "\trepend", "q%d\tequ %s+1" % (i, nx)], "align": ["\talign 1+(%s&1)" % nx, "q%d\tequ %s+*-*" % (i, nx)], "equ": ["q%d\tequ %s+1" % (i, nx)]}[kind]
            ps.append(prog(out + ["q%d\tequ 5" % n, "\tdc.w q0"], maxp=rng.choice([10, 10, n, n + 1, n + 2]), allp=rng.random() < .2))
    # different things wait for chains of different length
    for _ in range(350 * k):
        out, tail = ["\tprocessor 6502", "\torg $1000"], []
        for i in range(rng.randint(1, 4)):
            n = rng.choice([0, 0, 1, 1, 2, 3])
            x = "c%d_0" % i
            out += rng.choice([["\trepeat %s&3" % x, "\tdc 9", "\trepend"], ["\tds %s&3" % x], ["\tif %s&1" % x, "\tdc 1", "\tendif"], ["\talign 1+(%s&3)" % x], ["v%d\t= %s" % (i, x), "\tdc.w v%d-1" % i], ["v%d\tset %s" % (i, x), "\tdc v%d" % i], ["\tdc.w %s" % x], ["\tlda %s" % x], ["\torg *+(%s&7)" % x], ["\tds 2,%s" % x], ["\tifconst %s" % x, "\tdc 2", "\telse", "\tdc 3", "\tendif"], ["\trorg %s" % x, "\tdc.w *", "\trend"], ["l%d\tdc.w l%d" % (i, i), "\tdc <tail"], ["v%d\t= tail" % i, "\tdc.w v%d" % i], ["e%d\teqm %s+1" % (i, x), "\tdc.w e%d" % i]])
            ch = ["c%d_%d\tequ c%d_%d+1" % (i, j, i, j + 1) for j in range(n)] + ["c%d_%d\tequ %d" % (i, n, rng.randint(0, 20))]
            tail += ch if rng.random() < .7 else ch[::-1]
            if rng.random() < .3:
                out += tail
                tail = []
        ps.append(prog(out + ["tail\tdc.w tail"] + tail, maxp=rng.choice([10, 10, 10, 3, 4, 5]), allp=rng.random() < .15))
    # the reasons for another pass change while their number does not
    for n in range(2, 7):
        out = ["\tprocessor 6502", "\torg $1000"]
        for i in range(n):
            out += ["\tif p%d" % i, "\tdc %d" % i, "\tendif"]
        for i in range(n):
            out += ["\tif %s" % ("p%d" % (i + 1) if i < n - 1 else "1"), "p%d\tequ 1" % i, "\tendif"]
        ps.append(prog(out))
        ps.append(prog(out, allp=True))
    return ps


# ---------------------------------------------------------------- C04
def more_C04(rng, k):
    ps = real(lambda n: n.startswith("suite") and "f8" not in n)
    # every instruction with every width forced on every kind of index; a program per mode the instruction has, one for the rest
    forms = {"BYTEADR": ("bdz", "5"), "BYTEADRX": ("bdz", "5,x"), "BYTEADRY": ("bdz", "5,y"), "WORDADR": ("wea", "5"), "WORDADRX": ("wea", "5,x"), "WORDADRY": ("wea", "5,y"), "BYTEADR_SP": ("bdz", "5,sp"), "WORDADR_SP": ("wea", "5,sp"), "0X": ("0i", "0,x"), "IMP": ("0i", "")}
    for cpu in sorted(ISA):
        good, bad = [], []
        for n, (kind, flags, modes) in sorted(ISA[cpu].items()):
            if kind == "mne":
                for m, (sf, o) in sorted(forms.items()):
                    f = rng.choice(sf)
                    if m[-1] in "XY" and m[0] != "0" and rng.random() < .5:
                        f += m[-1].lower()
                    l = "\t%s.%s\t%s" % (n, f, o.replace("5", rng.choice(["5", "5", "0", "$fe", "fz"])))
                    (good if m in modes else bad).append(l)
        for i in range(0, len(good), 12):
            ps.append(src(["\tprocessor " + CPUS[cpu], "\torg $100"] + good[i:i + 12] + ["fz\tequ 6"]))
        if k == 1:
            bad = rng.sample(bad, min(len(bad), 200))
        for i in range(0, len(bad), 20):
            ps.append(src(["\tprocessor " + CPUS[cpu], "\torg $100"] + bad[i:i + 20] + ["fz\tequ 6"]))
    # every suffix of one and two characters
    sfx = [x + y for x in "s0idbzewalru" for y in ("", "x", "y", "n", "i", "b", "q")] + ["S", "IX", "Bi", "zB", "Ey", "L", "q", "1", "xb", "bix", "wordx"]
    for cpu in ("6502", "68705", "6811", "68908", "6803"):
        names = sorted(n for n, (kind, flags, modes) in ISA[cpu].items() if kind == "mne")
        pick = [n for n in ("lda", "ldaa", "jmp", "asl", "brset0", "bset0", "bne", "cpx") if n in names] + rng.sample(names, 1 if k == 1 else 30)
        for n in pick:
            for f in rng.sample(sfx, 22 if k == 1 else len(sfx)):
                ps.append(src(["\tprocessor " + CPUS[cpu], "\torg $100", "\t%s.%s\t%s" % (n, f, rng.choice(["", "5", "$1234", "#5", "5,x", "fz,y", "(5),y", "fz", "lab", "5,lab", "*+3", "($1234)"])), "lab\tdc.w *", "fz\tequ 6"]))
    # index registers in brackets, and names that begin like a register
    for cpu in ("68705", "6811", "68908", "6502", "6803"):
        names = sorted(n for n, (kind, flags, modes) in ISA[cpu].items() if kind == "mne")
        pick = [n for n in ("lda", "ldaa", "sta", "staa", "ldx", "ldhx", "jmp", "jsr", "clr", "inc", "stx", "cmp", "ldd") if n in names] + rng.sample(names, min(len(names), 4 if k == 1 else 40))
        for n in pick:
            for f in ("[x+%s]", "[y+%s]", "[sp+%s]", "[X+%s]", "[Y+%s]", "[SP+%s]", "[Sp+%s]", "[sP+%s]"):
                ps.append(src(["\tprocessor " + CPUS[cpu], "\torg $100", "\t%s\t%s" % (n, f % rng.choice(["0", "5", "255", "256", "$1234", "fz", "(1+2)", "2*3", "-1"])), "\tdc [1+2]", "\t%s\t%s" % (n, rng.choice(["5", "$1234", "[5+1]"])), "fz\tequ 6"]))
            for c in rng.sample("abcmyz019AZ_.$@", 4):
                for r in ("x", "y", "sp", "s", "X"):
                    if rng.random() < .4:
                        ps.append(src(["\tprocessor " + CPUS[cpu], "\torg $100", "%s\tequ 3" % (r + c), "\t%s\t%s,%s" % (n, rng.choice(["5", "$1234", "fz", "(5"]), r + c + rng.choice(["", "", "+1", ")"])), "fz\tequ 6"]))
            for f in ("(5,%s)", "(fz,%s)", "($1234,%s)", "(5),%s", "(5,%s", "(5),%s)", "(5,%s),y", "(5,%s)+1"):
                ps.append(src(["\tprocessor " + CPUS[cpu], "\torg $100", "\t%s\t%s" % (n, f % rng.choice("xyXY")), "fz\tequ 6"]))
    for cpu in ("65c02", "6803", "6303", "68705", "6811", "68908", "6502"):
        lines = []
        for name, (kind, flags, modes) in sorted(ISA[cpu].items()):
            if not flags & {"imod", "mask", "rel"} or kind != "mne":
                continue
            rel = ",*+%d" % rng.choice([4, 9, 20]) if "rel" in flags else ""
            ops = []
            if "BITMOD" in modes or "BITBRAMOD" in modes:
                ops = ["%d,%s" % (b, v) for b in range(8) for v in (["$42"] if b % 3 else ["$42", "fz", "0", "$ff"])]
            elif "mask" in flags:
                for m, o in (("BYTEADR", "%s"), ("BYTEADRX", "%s,x"), ("BYTEADRY", "%s,y"), ("0X", "%s,x"), ("0Y", "%s,y")):
                    if m in modes:
                        ops += [(o % v) + "," + ms for v in ("5", "$42", "fz", "0", "$ff") for ms in ("1", "$81", "$ff", "fz", "3")]
            elif "imod" in flags:
                for m, o in (("BYTEADR", "%s"), ("BYTEADRX", "%s,x"), ("BYTEADRY", "%s,y"), ("IMM8", "#%s")):
                    if m in modes:
                        ops += ["#%s,%s" % (i, o % v) for v in ("5", "fz", "$ff") for i in ("1", "$81", "fz")]
            else:
                for m, o in (("IMP", ""), ("IMM8", "#%s"), ("BYTEADR", "%s"), ("BYTEADRX", "%s,x"), ("0X", ",x"), ("BYTEADR_SP", "%s,sp"), ("WORDADR", "%s")):
                    if m in modes:
                        ops += [o % v if "%" in o else o for v in ("5", "$42", "fz")]
                ops = sorted(set(ops))
            for o in ops if k > 1 else rng.sample(ops, min(len(ops), 9)):
                o2 = (o + rel).lstrip(",") if o != ",x" else o + rel
                if rng.random() < .15:
                    o2 = o2.replace(",", " , ") if rng.random() < .5 else o2.upper().replace("FZ", "fz")
                lines.append("\t%s\t%s" % (name, o2))
        # one program per line: a rejected one would hide the others' bytes
        rng.shuffle(lines)
        size = 1 if k > 1 else 2
        for i in range(0, len(lines) if k > 1 else min(len(lines), 150), size):
            ps.append(prog([C04HEAD[0] % CPUS[cpu]] + C04HEAD[1:] + lines[i:i + size] + C04TAIL, note=cpu))
        # operands given as expressions, with blanks, nested brackets, upper case registers
        names = [n for n in sorted(ISA[cpu]) if not ISA[cpu][n][1] and ISA[cpu][n][0] == "mne"]
        forms = sorted(props1.FORMS[cpu])
        for _ in range(14 * k):
            ls = []
            for _ in range(12):
                f = rng.choice([x for x in forms if "V" in x] + ["(V,X)", "(V),Y", "V,X", "V,Y", "[V]", "[V],x", "((V)),y", "(V)+1", "(V)+1,x", "# V", "V , x", "( V ) , y", "#<V", "#>V", "V+0,x", "(V+1),y", "([V],x)", "<V", ">V", "V&255", "-V", "V,x ; c", "*", "*+V", "(V)*2,y"])
                nm = rng.choice(names)
                ok = {"IMM8", "BYTEADR", "BYTEADRX", "WORDADR"} & set(ISA[cpu][nm][2])
                if not ok and rng.random() < .8:
                    continue
                ls.append("\t%s\t%s" % (nm, f.replace("V", rng.choice(["5", "zp", "ab", "fz", "fa", "z0", "$ff", "$100", "'a", "%101"]))))
            for i in range(0, len(ls), 4):
                ps.append(prog([C04HEAD[0] % CPUS[cpu]] + C04HEAD[1:] + ls[i:i + 4] + C04TAIL, note=cpu, strict=rng.random() < .1))
    # processors given in any writing, and more than one in a source
    for a in ("6502", "65C02", "65c02", "6803", "HD6303", "hd6303", "68705", "68HC11", "68hc11", "68HC908", "68hc908", "68908", "F8", "f8", "6507", "", "z80", "650"):
        for line in ("\tinx", "\tlda\t#5", "\tldaa\t#5", "\tbra\t*", "\tlr\ta,5", "\txgdx"):
            ps.append(prog(["\tprocessor %s" % a, "\torg $1000", line, "\tdc.w $1234"]))
    for a in ("6502", "6803", "f8"):
        for b in ("6502", "6803", "f8", "65c02"):
            ps.append(prog(["\tprocessor %s" % a, "\torg $1000", "\tdc.w 1", "\tprocessor %s" % b, "\tdc.w 1", "\tnop"]))
            ps.append(prog(["\torg $1000", "\tdc.w 1", "\tprocessor %s" % a, "\tdc.w 1", "\tnop"]))
    return ps


# ---------------------------------------------------------------- C05
def more_C05(rng, k):
    ps = real(lambda n: n.startswith(("suitef8", "channel-f")))
    # a label on every instruction, forward operands or not; branches from a place not known at first
    for name, (kind, flags, modes) in sorted(ISA["f8"].items()):
        ops = {"lr": ["A,5", "K,P", "5,A", "A,fz"], "bf_bt": ["1,lab", "fz,lab"], "branch": ["lab"], "sreg_op": ["5", "fz"], "ins_outs": ["5", "fz"], "lis": ["5", "fz"], "lisu_lisl": ["5", "fz"],
               "wordop": ["$1234", "fa"], "byteop": ["5", "fz"], "sl_sr": ["1", "4", "fo"]}.get(kind, [""])
        out = []
        for i, o in enumerate(ops):
            out += ["lb%d\t%s\t%s" % (i, name, o), "\tdc.w lb%d" % i]
        ps.append(src(["\tprocessor f8", "\torg $800", "\tdc 1"] + out + ["lab\tdc.w lab", "fz\tequ 6", "fa\tequ $3344", "fo\tequ 4"]))
        if kind in ("bf_bt", "branch"):
            for start in (["\torg uo"], ["\torg $20", "\trorg uo"], ["\torg $20", "\tds uo"]):
                for t in ("lab", str(rng.choice([0x1010, 0x1050, 0x1081, 0x1082, 0x1000, 0x900])), "fa"):
                    ps.append(src(["\tprocessor f8"] + start + ["\t%s\t%s%s" % (name, "fz," if kind == "bf_bt" else "", t), "lab\tdc 1", "uo\tequ %d" % rng.choice([0x1000, 0x1010, 5]), "fz\tequ 6", "fa\tequ uo+3"]))
    head = ["\tprocessor f8", "r3\tequ 3", "\torg $800"]
    tail = ["fz\tequ 6", "fa\tequ $3344"]
    okd = ["A,KU", "A,KL", "A,QU", "A,QL", "A,IS", "KU,A", "KL,A", "QU,A", "QL,A", "IS,A", "K,P", "P,K", "K,PC1", "PC1,K", "Q,DC", "Q,DC0", "DC,Q", "DC0,Q", "H,DC", "H,DC0", "DC,H", "DC0,H", "P0,Q", "PC0,Q", "W,J", "J,W"]
    okd += ["A," + r for r in ("S", "I", "D", "J", "HU", "HL", "0", "5", "14", "r3", "fz", "(IS)", "(IS)+", "(IS)-")] + [r + ",A" for r in ("S", "I", "D", "J", "HU", "HL", "0", "5", "14", "r3", "fz", "(IS)", "(IS)+", "(IS)-")]
    styles = ["%s, %s", "%s ,%s", "%s , %s", "%s,%s ", "%s,  %s ; c", " %s,%s", "%s\t,\t%s", "%s,%s;c"]
    lines = []
    for x in okd:
        for st in styles if k > 1 else rng.sample(styles, 3):
            a, b = x.split(",")
            if rng.random() < .5 and "r3" not in x and "fz" not in x:
                a, b = a.lower(), b.lower()
            lines.append("\tlr\t" + st % (a, b))
    for st in styles:
        for n in ("bt", "bf"):
            lines.append("\t%s\t%s" % (n, st % (rng.choice(["1", "r3", "fz", "7"]), rng.choice(["*", "*+5", "lend"]))))
    for n in ("as", "asd", "ds", "ns", "xs", "lisu", "lisl", "lis", "ins", "outs", "in", "out", "li", "ai", "ci", "ni", "oi", "xi", "dci", "jmp", "pi", "sl", "sr", "am", "inc"):
        if n in ISA["f8"]:
            for v in ("1", " 1", "1 ", "r3" if n not in ("sl", "sr") else "4", "(1)", "[1]", "1+0", "1 ; c", "%1", "$1", "'\x04" if 0 else "1*1"):
                lines.append("\t%s\t%s" % (n, v))
                if rng.random() < .3:
                    lines.append("\t%s\t%s" % (n.upper(), v))
    for l in lines:
        ps.append(prog(head + [l, "lend"] + tail))
    for _ in range(20 * k):
        ps.append(prog(head + ["\t%s\t%s" % (rng.choice(["dc.w", "dc.l", "res", "res.w", "dc", "da", "dw", "align"]), rng.choice(["$12", "3", "fz", "r3", "$12,fz"])) for _ in range(5)] + tail))
    for name, (kind, flags, modes) in sorted(ISA["f8"].items()):   # every operation with a value that becomes known late
        for v in ("fz", "late", "fz-5", "lend-lend+1", "#fz", "(fz)"):
            ps.append(prog(head + ["\t%s\t%s" % (name, v), "lend"] + ["late\tequ fz-2"] + tail))
    return ps


# ---------------------------------------------------------------- C06
def more_C06(rng, k):
    ps = []
    tgt = {"6502": ["bne\tT", "bcc\tT"], "65c02": ["bra\tT", "bbr0\t$42,T" if "bbr0" in ISA["65c02"] else "bra\tT"], "6803": ["bra\tT", "bsr\tT"], "68705": ["brset\t3,$42,T", "bra\tT"], "6811": ["brclr\t5,x,$81,T", "brset\t5,y,$81,T", "bra\tT"], "68908": ["cbeqa\t#5,T", "dbnza\tT", "bra\tT"], "f8": ["br\tT", "bt\t5,T"]}
    for cpu, forms in tgt.items():
        for f in forms:
            if f.split("\t")[0] not in ISA[cpu]:
                continue
            for _ in range(12 * k):
                b, fs = wrap(rng, ["la_\t%s" % f.replace("T", rng.choice(["lb_", "la_", "lz"])), "\tds %d" % rng.choice([0, 60, 100, 118, 121, 122, 123, 124, 125, 126, 127, 128]), "lb_\t%s" % f.replace("T", rng.choice(["la_", "lb_", "*"]))], rng.choice([1, 1, 2]))
                ps.append(src(["\tprocessor " + CPUS[cpu], "\torg $%x" % rng.choice([0x1000, 0x80, 0xff00])] + b + ["lz\tnop"], fs, note=cpu))
    return ps


# ---------------------------------------------------------------- C07
def more_C07(rng, k):
    ps = []
    # shifts by more than there are bits
    sh = ["%s%s%s" % (v, o, n) for v in ("5", "-5", "[-1]", "$7fffffffffffffff", "[~0]", "fw", "[0-fw]") for o in ("<<", ">>") for n in ("0", "1", "31", "32", "62", "63", "64", "65", "70", "127", "128", "1000", "[-1]", "[0-64]", "nf")]
    for i in range(0, len(sh), 7):
        ps.append(src(["\torg 0"] + ["\tdc.l %s" % e for e in sh[i:i + 7]] + ["\techo " + ",".join("[%s]d" % e for e in sh[i:i + 3]), "fw\tequ 9", "nf\tequ 66"]))
    places = ["\tlda #%s", "\tds %s", "\talign %s", "\torg $1000+%s", "\tdc.b 1,%s,2", "\trepeat %s\n\tdc 1\n\trepend", "\tif %s\n\tdc 1\n\telse\n\tdc 2\n\tendif", "x\tequ %s\n\tdc.l x", "x\tset %s\n\tdc.l x", "x\teqm %s\n\tdc.l x", "\techo %s", "\tds 2,%s", "\trorg %s\n\tdc.w *", "\"n\",%s\tdc 1", "\tincbin \"d.bin\",%s", "\tdv em %s", "\tmm %s"]
    es = ["1+2*3", "(1+2)*3", "[1+2]*3", "10/3", "-7/2", "10%3", "1<<3", "%11", "'a-'a+3", "2|1", "7&3", "6^5", "3>2", "2>=2", "1!=2", "!0", "~-4", "<$304", ">$304", "k1-2", "f1-4", "1&&2", "0||5", "-(-3)", "1?4", "0?4", "$f>>2", "2-1-1+3", "012-7", "3==3", "\"a\"-94"]
    for pl in places:
        for e in rng.sample(es, 9 if k == 1 else len(es)):
            if pl.startswith("\tincbin") and e in ("1?4",):
                continue
            ps.append(src(["\tprocessor 6502", "k1\tequ 5", "em\teqm ..+1", "\tmac mm", "\tdc.w {1}", "\tendm", "\torg $1000"] + (pl % e).split("\n") + ["f1\tequ 7"]))
    # expressions of several operators, the way people write them: blanks, mixed literals
    syms = ["k1", "f1", "*", "$1f", "%101", "017", "'A", "7", "lbl", "e1"]
    ops = ["+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "<=", ">=", "==", "=", "!=", "&&", "||", "<<", ">>", "?"]
    for _ in range(60 * k):
        ls = []
        for j in range(10):
            n = rng.randint(2, 7)
            e = ""
            deep = 0
            for i in range(n):
                o = rng.choice(ops)
                if i:
                    e += rng.choice([o, " %s " % o, o + " "]) if o not in ("<<", ">>", "%") else o
                if i and o in ("<<", ">>"):
                    e += str(rng.randint(0, 9))
                    continue
                if i and o in ("/", "%"):
                    e += str(rng.randint(1, 9))
                    continue
                e += rng.choice(["", "", "", "-", "~", "!", "<", ">"])
                if rng.random() < .25 and i < n - 1:
                    e += "["
                    deep += 1
                e += rng.choice(syms)
                if deep and rng.random() < .4:
                    e += "]"
                    deep -= 1
            e += "]" * deep
            ls.append(rng.choice(["v%d\tequ\t%s" % (j, e), "\tdc.l\t%s" % e, "\techo\t[%s]" % e]))
        ps.append(prog(["\tprocessor 6502", "k1\tequ 5", "e1\teqm k1+1", "\torg $1000"] + ls + ["lbl", "f1\tequ 7"]))
    return ps


# ---------------------------------------------------------------- C08
def more_C08(rng, k):
    ps = []
    hi = ["\"\x80\"", "\"a\xffb\"", "\"\xe9t\xe9\"", "\"\x7f\x80\x81\"", "'\xe9", "\"\xff\xff\""]
    for c in ("6502", "6803", "f8"):
        for d in ("dc", "dc.b", "dc.w", "dc.l", "dc.s", "byte", "word", "long", "dw", "dd", "db"):
            for v in hi if k > 1 else rng.sample(hi, 2):
                ps.append(prog(["\tprocessor " + CPUS[c], "\torg $1000", "\t%s\t%s" % (d, v), "x\t%s\t1,%s,2" % (d, v), "\tdc.l x"], strict=rng.random() < .3))
        for d in ("dv", "dv.w", "dv.l"):
            ps.append(prog(["\tprocessor " + CPUS[c], "\torg $1000", "em\teqm ..+1", "\t%s\tem %s" % (d, rng.choice(hi)), "x\tdc.l x"]))
    # every directive in every place
    body = ["p\tdc.b 1,2,\"ab\"", "q\tdc.w $1234,*", "\tds 3,7", "\tds.w 2,$1234", "r\talign 8,$ea", "\thex 01 02", "\tdv em 1,2", "\tdc.l $12345678", "\tbyte 5", "\tword 6", "\tlong 7", "\tdc.s $12", "\tds.l 1,$12345678", "\tres 2", "\tdc.w -1,-32768", "\tdc -1,-128,255", "\talign.w 4", "\tdc 'a,'b", "\tds 0", "\tdc.w p,q,r", "\tdc \"\"", "\tdc \"a\",\"\",\"b\""]
    for _ in range(50 * k):
        b, f = wrap(rng, rng.sample(body, rng.randint(2, 7)), rng.choice([1, 2]))
        ps.append(src(["\tprocessor " + rng.choice(["6502", "6803", "6811", "68705"]), "em\teqm ..*2", "\torg $%x" % rng.choice([0x1000, 0x1005])] + b + ["\tif 0", "p", "q", "r", "\tendif", "\tdc.w *"], f, strict=rng.random() < .2, fmt=rng.choice([1, 2, 3])))
    for n in (1, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 900):   # long lines of data: buffers
        ps.append(prog(HEAD + ["i\tset 0", "\tdc.b " + ",".join(str(i % 10) for i in range(min(n, 220))), "\tds %d,$a5" % n, "\tdc.w *", "\tdc \"" + "x" * min(n, 400) + "\"", "\tdc.w *"]))
    for v in ("255", "256", "-128", "-129", "-255", "65535", "65536", "-32768", "-32769", "-65535", "-65536", "$ffffffff", "$100000000", "-1", "$ffffff80", "$ffffffff80"):
        for d in ("dc.b", "dc.w", "dc.l", "dc.s", "dv em", "dv.w em", "ds 1,", "ds.w 1,", "ds.l 1,", "align 4,", "lda #", "dc.b fw,", "db", "dw", "dd", "hex"):
            if d == "hex":
                continue
            for st in (False, True):
                ps.append(prog(["\tprocessor 6502", "em\teqm ..", "\torg $1001", "\t%s%s%s" % (d, "" if d[-1] in ",#" else " ", v), "fw\tequ 3"], strict=st))
    return ps


# ---------------------------------------------------------------- C09
def more_C09(rng, k):
    ps = []
    seqs = []
    parts = ["\tdc 1,2,3", "\tds 4", "\tds 3,$77", "\torg *+4", "\torg *+4,$33", "\torg *", "\torg *-1", "\talign 16", "\talign 16,$44", "\tseg s1\n\torg $1100\n\tdc 9", "\tseg s1\n\torg $1100,$66\n\tdc 9\n\torg *+3\n\tdc 8", "\tseg code", "\tseg.u b\n\torg $1080\n\tds 5", "\tseg.u b\n\tds 2", "\trorg $2000\n\tdc 5", "\trend", "\trorg $2000\n\torg $1200\n\tdc 6", "\tincbin \"d.bin\"", "\torg $1400\n", "\torg $1400,$99\n\tdc 7", "\tseg s2\n\tdc 3", "\tds 0", "\tdc.w lat", "\torg lat2", "\thex 0102", "\torg $1300,lat3", "\tseg.u b\n\torg $2000\n\talign 8\n\tds 1\n\tseg code", "\torg $1500\n\torg $1510\n\tdc 1", "\torg $1000", "\tds 300,1"]
    for _ in range(130 * k):
        b = [x for p in rng.sample(parts, rng.randint(2, 6)) for x in p.split("\n") if x]
        if rng.random() < .3:
            b.insert(0, "\tdc.w lat")
        start = rng.choice([["\tseg code", "\torg $1000"], ["\torg $1000"], ["\torg $1000,$ff"], ["\tseg code", "\torg $1000,$22"], ["\tseg.u first", "\torg $80", "v\tds 3", "\tseg code", "\torg $1000"], [], ["\torg 0"], ["\tseg code", "\torg $ffe"]])
        for f in (1, 2, 3):
            ps.append(src(["\tprocessor 6502"] + start + b + ["\tif 0", "\tendif", "lat\tequ $1234", "lat2\tequ $1700", "lat3\tequ $31"], fmt=f, remove=rng.random() < .1))
    # large gaps and hunks
    for n in (254, 255, 256, 257, 4095, 4096, 32767, 32768, 33000, 65534, 65535, 65536, 66000) if k > 1 else (255, 256, 257, 4096, 33000):
        for f in (1, 2, 3):
            ps.append(prog(["\torg $%x" % rng.choice([0, 0x10]), "\tds %d,$ab" % n, "\torg *+%d" % rng.choice([1, 5, 300]), "\tdc 1,2"], fmt=f))
            ps.append(prog(["\torg 5", "\tdc 1", "\torg %d,$cd" % n, "\tdc 2"], fmt=f))
    for _ in range(20 * k):
        ps += [reopt(rng, p, fmt=[1, 2, 3]) for p in rich(rng, 2, dict(org=5, seg=5, rorg=3, ds=4, align=4))]
    return ps


# ---------------------------------------------------------------- C11
def more_C11(rng, k):
    ps = rich(rng, 60 * k, dict(org=5, seg=6, rorg=6, lab=8, ds=4, align=4))
    # RORG, ORG, SEG in every order and place
    parts = ["\torg $1100", "\torg $1200,5", "\trorg $f000", "\trorg $f100", "\trend", "\tseg a", "\tseg b", "\tseg.u c", "\torg *+2", "\trorg *", "\torg fo", "\trorg fr", "\talign 8", "\tds 3", "\tds fs", "\tdc.w *", "\trend", "\tincbin \"d.bin\",20", "\tseg.u a", "\trorg", "\torg"]
    for _ in range(170 * k):
        out = []
        for i, x in enumerate(rng.choice(parts) for _ in range(rng.randint(3, 9))):
            out += [("k%d" % i if rng.random() < .5 else "") + x, "j%d" % i + rng.choice(["", "\tdc.w *", "\tdc 1", "\tequ *"])]
        ps.append(src(["\tprocessor 6502", "\torg $1000"] + out + ["\tdc.w j0,j1,j2", "fo\tequ $1300", "fr\tequ $e000", "fs\tequ 4"], fmt=rng.choice([2, 2, 1, 3])))
    for _ in range(40 * k):
        b, f = wrap(rng, ["\trorg $%x" % rng.choice([0x200, 0xf000]), "a_\tdc.w *,a_", "\tseg x", "\torg $3000", "b_\tdc.w *,a_", "\tseg code", "c_\tdc.w *", rng.choice(["\trend", "\torg $4000", "\talign 16"]), "d_\tdc.w *,d_,b_"], rng.choice([1, 2]))
        ps.append(src(["\tprocessor 6502", "\tseg code", "\torg $1000"] + b + ["e_\tdc.w e_", "\tseg x", "f_\tdc.w f_"], f, fmt=2))
    return ps


# ---------------------------------------------------------------- C12
def more_C12(rng, k):
    ps = rich(rng, 90 * k, dict(ifs=12, ifc=8, inc=7, call=8))
    forms = ["ifconst", "ifnconst"]
    defs = {"no": [], "equ": ["x\tequ 5"], "zero": ["x\tequ 0"], "set": ["x\tset 5"], "eqm": ["x\teqm *+1"], "eqmf": ["x\teqm late+1"], "str": ["x\tsetstr abc"], "estr": ["x\tset \"\""], "lab": ["x\tdc 1"], "sub": ["x\tsubroutine"], "equf": ["x\tequ late"], "undef": ["x\tequ nodef"], "dot": [".x\tequ 3"], "asked": ["\tifconst x", "\tendif"], "used": ["\tdc.w x", "x\tequ 9"], "skip": ["\tif 0", "x\tequ 1", "\tendif"], "mac": ["\tmac x", "\tdc 1", "\tendm"], "seg": ["x\torg *"], "rorg": ["x\trorg $f000", "\trend"], "strsym": ["x\tsetsym y"], "later": None}
    for how, d in defs.items():
        for f in forms:
            for arg in ("x", "x ; c", "(x)", "x+1", ".x", "x,y") if k > 1 else ("x", rng.choice(["x ; c", "(x)", "x+1", ".x", "X"])):
                b = ["\t%s %s" % (f, arg), "\tdc 1", "\telse", "\tdc 2", "\tendif", "\tdc.w *"]
                ps.append(prog(HEAD + ["y\tsetstr q", "q\tequ 3"] + (d or []) + b + (["x\tequ 7"] if d is None else []) + ["late\tequ 4"]))
        c = ["\tif x", "\tdc 1", "\telse", "\tdc 2", "\tendif"]
        ps.append(prog(HEAD + ["y\tsetstr q", "q\tequ 3"] + (d or []) + c + (["x\tequ 7"] if d is None else []) + ["late\tequ 4"]))
    # files and macros that leave conditionals open, or close and switch those of their caller
    tails = [["\tif 1"], ["\tif 0"], ["\tif 1", "\tif 1"], ["\tif 1", "\tif 0"], ["\tif 0", "\tif 1"], ["\tif 0", "\tif 0"], ["\tif 1", "\telse"], ["\tif 0", "\telse"], ["\tif fw"], ["\tif fw", "\tif 1"], ["\tendif"], ["\telse"], ["\tendif", "\tendif"], ["\tif 1", "\tendif", "\tendif"], ["\telse", "\telse"], ["\tif 1", "\tif 1", "\tif 1"], ["\tif 1", "\tif 1", "\telse"], ["\tif 1", "\trepeat 2"], ["\tif 1", "\tmexit"], ["\tif 1", "\tend"], ["\tif 1", "\tif 1", "\tend"], ["\tif 0", "\tend"], ["\tif 1", "\tinclude \"o2.h\""], ["\tif 1", "\tmo2"]]
    for t in tails:
        for outer in (0, 1, 2) if k > 1 else rng.sample((0, 1, 2), 2):
            for via in ("inc", "mac"):
                if via == "inc" and "\tmexit" in t:
                    continue
                call = "\tinclude \"o.h\"" if via == "inc" else "\tmo"
                mid = ["\tdc 10"] + [call] + ["\tdc 11"]
                body = sum([["\tif %s" % rng.choice(["1", "1", "s"]), "\tdc 20"] for _ in range(outer)], []) + mid + sum([rng.choice([["\telse", "\tdc 21", "\tendif"], ["\tendif"]]) + ["\tdc 22"] for _ in range(outer)], [])
                mac = ["\tmac mo2", "\tif 1", "\tdc 5", "\tif 1", "\tendm", "\tmac mo"] + ["\tdc 12"] + t + ["\tdc 13", "\tendm"]
                ps.append(src(HEAD + ["s\tset 1"] + mac + body + ["\tdc 99", "fw\tequ 1"], {"o.h": "\n".join(["\tdc 12"] + t + ["\tdc 13"]) + "\n", "o2.h": "\tif 1\n\tdc 5\n\tif 1\n"}))
    for _ in range(60 * k):
        b, f = wrap(rng, ["\tif %s" % rng.choice(["0", "1", "fw", "s"]), "\tdc 1", "\tif %s" % rng.choice(["0", "1", "fw"]), "\tdc 2", "\telse", "\tdc 3", "\tendif", "\telse", "\tdc 4", "\tifconst %s" % rng.choice(["fw", "s", "nodef"]), "\tdc 5", "\tendif", "\tendif", "\tdc 6"], rng.choice([1, 2, 3]))
        ps.append(src(HEAD + ["s\tset 1"] + b + ["fw\tequ %d" % rng.randint(0, 1), "\tdc 7"], f))
    return ps


# ---------------------------------------------------------------- C13
def more_C13(rng, k):
    ps = rich(rng, 90 * k, dict(rep=14, set=8, call=8, inc=6))
    for _ in range(150 * k):
        b, f = wrap(rng, ["i\tset 0", "\trepeat %s" % rng.choice(["0", "1", "2", "3", "fc", "s"]), "\tdc i", rng.choice(["\trepeat i", "\trepeat 2", "\trepeat 0", "\trepeat fc-1"]), "\tdc $10+i", "\trepend", "i\tset i+1"] + rng.choice([["\tif i=1", "\tdc $aa", "\telse", "\tdc $bb", "\tendif"], ["\tds 1"], [".l\tset i", "\tdc .l"], ["\techo i"]]) + ["\trepend", "\tdc.w *,i"], rng.choice([1, 2, 3]))
        ps.append(src(HEAD + ["s\tset 2"] + b + ["\tdc 9", "fc\tequ 2", "lat\tdc.w lat"], f))
    return ps


# ---------------------------------------------------------------- C14
def more_C14(rng, k):
    ps = headers() + rich(rng, 90 * k, dict(call=20, local=6, dollar=5, ifs=6, rep=5))
    ps += rng.sample(selfref(), 40)
    alists = [",,5", ",5", "5,,", ",,", "1,,2", " , ,3", "1, ,2", "\"\",,1", ",", "1,2,,,5", "(1,2)", "[1,2]", "\"a,b\",c", "'a,'b", "',,1", "1,2 ; c", "1 2,3", "  1  ,  2  ", "1,2,", "a=1,b", "\"q\"\"r\",2", "'\",2", "#1,x", "(1),y", "{1},2", "1;2,3", "$1f,%101", "1\t,\t2", "1+2 , 3", "1/*c*/,2", "\"/*\",2"]
    for al in alists:
        for body in (["\techo \"[{1}|{2}|{3}]\""], ["\techo \"<{0}>\""], ["\tdc.b {3}"], ["\tdc.b {1}"], ["\tdc.b {2}"], ["\tdc \"{1}\",\"{2}\""]) if k > 1 else rng.sample([["\techo \"[{1}|{2}|{3}]\""], ["\techo \"<{0}>\""], ["\tdc.b {3}"], ["\tdc.b {1}"], ["\tdc.b {2}"]], 3):
            ps.append(src(HEAD + ["\tmac m"] + body + ["\tendm", "a\tequ 1", "b\tequ 2", "c\tequ 3", "x\tequ 4", "\tm %s" % al, "\tdc 9"]))
            if rng.random() < .4:
                ps.append(src(HEAD + ["\tmac n"] + body + ["\tendm", "\tmac m", "\tn %s" % rng.choice(["{0}", "{1},{2},{3}", "{3},{2},{1}", "{1}", "0,{0}"]), "\tendm", "a\tequ 1", "b\tequ 2", "c\tequ 3", "x\tequ 4", "\tm %s" % al, "\tdc 9"]))
    # towers of calls with private labels used before and after the inner call
    for lv in (2, 3, 4, 5, 8):
        for _ in range(3 * k):
            out = list(HEAD)
            for i in range(lv):
                inner = ["\tt%d {1}+1" % (i - 1)] if i else ["\tdc {1}"]
                st = rng.choice(["dot", "dol", "both"])
                l = {"dot": [".a"], "dol": ["1$"], "both": [".a", "1$"]}[st]
                b = []
                for x in l:
                    b += ["\tdc.w %s" % x, "%s\tdc %d" % (x, i)]
                b += inner * rng.choice([1, 1, 2])
                b += ["\tdc.w %s" % x for x in l]
                out += ["\tmac t%d" % i] + b + ["\tendm"]
            out += [".a\tdc 99", "zz", "1$\tdc 98", "\tt%d 1" % (lv - 1), "\tdc.w .a,1$", "\tt%d 1" % (lv // 2), "\tdc.w .a,1$", "\tsubroutine", ".a\tdc 97", "yy\tt%d 1" % (lv - 1), "\tdc.w .a"]
            ps.append(src(out))
    return ps


# ---------------------------------------------------------------- C15
def more_C15(rng, k):
    ps = headers() + real(lambda n: n.startswith(("atari", "inc", "68"))) + rich(rng, 80 * k, dict(inc=16, incbin=5, call=6))
    dirs = ["x", "xx", "x/", "a/b", "a/b/", "longer_directory_name", "./x", "x.y", "X", "x-1"]
    for d in dirs:
        for how in ("-I", "incdir", "incdirq"):
            base = d.rstrip("/")
            if base.startswith("./"):
                continue
            f = {base + "/h.h": "\tdc 1\n", base + "/dd.h": "\tdc 2\n\tinclude \"h.h\"\n"}
            inc = ["\tinclude \"h.h\"", "\tinclude \"dd.h\"", "\tincbin \"b.bin\""]
            pre = [] if how == "-I" else ["\tincdir %s" % (d if how == "incdir" else '"%s"' % d)]
            ps.append(src(HEAD + pre + inc + ["\tdc.w *"], f, {base + "/b.bin": b"hello"}, defs=["-I" + d] if how == "-I" else []))
    # the same name in several directories; every order of search directories
    import itertools
    names = ["p", "qq", "r/s"]
    for order in itertools.permutations(names):
        for have in itertools.chain.from_iterable(itertools.combinations(["", "p/", "qq/", "r/s/"], n) for n in (1, 2, 3)):
            if k == 1 and rng.random() < .5:
                continue
            f = {h + "w.h": "\tdc %d\n" % (10 + i) for i, h in enumerate(["", "p/", "qq/", "r/s/"]) if h in have}
            bs = {h + "w.bin": bytes([20 + i]) for i, h in enumerate(["", "p/", "qq/", "r/s/"]) if h in have}
            n = rng.randint(0, 3)
            ps.append(src(HEAD + ["\tincdir \"%s\"" % d for d in order[n:]] + ["\tinclude \"w.h\"", "\tincbin \"w.bin\"", "\tdc 1"], f, bs, defs=["-I" + d for d in order[:n]]))
    # END in files, macros, loops and conditions at several depths
    ends = [["\tend"], ["\tif 1", "\tend", "\tendif"], ["\trepeat 2", "\tdc 4", "\tend", "\trepend"], ["\tme"], ["\tme2"], ["\tif 0", "\tend", "\tendif"], ["\trepeat 2", "\tme", "\trepend"], ["\tinclude \"e.h\""], ["\tmei"], ["lab\tend"], ["\tEND"], ["\tend start"]]
    for e in ends:
        for depth in (0, 1, 2, 3):
            mac = ["\tmac me", "\tdc 5", "\tend", "\tdc 6", "\tendm", "\tmac me2", "\tdc 7", "\tme", "\tdc 8", "\tendm", "\tmac mei", "\tinclude \"e.h\"", "\tdc 15", "\tendm"]
            files = {"e.h": "\tdc 16\n\tend\n\tdc 17\n"}
            body = ["\tdc 1"] + e + ["\tdc 2", "\tfrob" if rng.random() < .2 else "\tdc 22"]
            for i in range(depth):
                files["n%d.h" % i] = "\n".join(body) + "\n"
                body = ["\tdc %d" % (30 + i), "\tinclude \"n%d.h\"" % i, "\tdc %d" % (40 + i)]
            ps.append(src(HEAD + mac + body + ["\tdc 99"], files))
            if depth:
                ps.append(src(HEAD + mac + ["\trepeat 2"] + body + ["\trepend", "\tdc 99"], files))
    return ps


# ---------------------------------------------------------------- C16
def more_C16(rng, k):
    ps = rich(rng, 60 * k, dict(set=8, eqm=6, str=6, dyn=8, local=8, dollar=8, sub=6, equ=6))
    # labels put together from parts, some of them not well formed
    parts = ["a", "b1", "\"c\"", "\"d_\"", "n", "m", "n+1", "[n*2]", "5", "$1f", "\"\"", "\"e,f\"", "\"g:\"", "\"h", "\"i=\"", "", "fw", "s", "-1", "n:", "\"j\"x", "\"k\":", "und"]
    for _ in range(120 * k):
        p = rng.sample(parts, rng.randint(1, 3))
        first = rng.choice(["q", "r_", "Q", ".z", "\"y\""])
        lab = ",".join([first] + p)
        use = "".join([first.strip("\"")] + [{"n": "3", "m": "12", "n+1": "4", "[n*2]": "6", "$1f": "31", "s": "str", "fw": "7", "n:": "3", "-1": "-1"}.get(x, x.strip("\":")) for x in p])
        ps.append(prog(HEAD + ["n\tset 3", "m\tset 12", "s\tset \"str\"", lab + "\t" + rng.choice(["dc.w *", "equ 5", "set 6", "= 7", "eqm *+1", "nop", ""]), "\tdc.w " + rng.choice([use, "*", use + "+1"]), "fw\tequ 7"]))
    for _ in range(60 * k):
        p = rng.sample(parts[:19], rng.randint(1, 3))
        ps.append(prog(HEAD + ["n\tset 3", "m\tset 12", "s\tset \"str\"", "t\tset %s%s" % (rng.choice(["a", "a", "zz", "\"q\"", ""]), "".join("," + x for x in p if x.count("\"") != 1)), "\techo t", "a3\tequ 4", "\tdc.w t,a3", "fw\tequ 7"]))
    # long names that only differ late, have the same length, the same letters
    for n in (3, 20, 28, 40, 60, 100, 200):
        b = "".join(rng.choice("abcdefgh_XYZ0") for _ in range(n))
        b = "n" + b
        names = [b + t for t in ("abba", "baab", "abab", "aabb", "abbA", "bbaa", "abb", "abbaa")] + ["abba" + b, "baab" + b]
        out = list(HEAD)
        pick = rng.sample(names, 6)
        for i, x in enumerate(pick):
            out.append("%s\t%s" % (x, rng.choice(["equ %d" % i, "set %d" % i, "dc %d" % i, "eqm %d+0" % i])))
        ps.append(prog(out + ["\tdc.w %s" % x for x in pick]))
        ps.append(prog(HEAD + ["\tdc.w %s" % x for x in pick] + out[2:]))
        ps.append(prog(HEAD + ["\tsubroutine"] + [".%s\tequ %d" % (x, i) for i, x in enumerate(pick)] + ["\tdc.w .%s" % x for x in pick]))
        ps.append(prog(HEAD + ["\tmac %s\n\tdc %d\n\tendm" % (x[:60], i) for i, x in enumerate(pick[:3]) if n < 50] + ["\t%s" % x for x in pick[:3] if n < 50]))
    # two names with one hash value, the same up to a late character or from an early one on
    for n in (1, 4, 8, 12, 16, 24, 27, 28, 29, 31, 32, 36, 48, 60, 64, 100, 128, 250):
        b = "".join(rng.choice("cdefgh_XYZ0") for _ in range(n))
        out = []
        for i, (x, y) in enumerate([("n" + b + "abba", "n" + b + "baab"), ("abba" + b, "baab" + b)]):
            how = rng.choice(["%s\tequ %d", "%s\tset %d", "%s\teqm %d+0"])
            out += [how % (x, 2 * i + 1), how % (y, 2 * i + 2), "\tdc %s" % x, "\tdc %s" % y]
        ps.append(prog(HEAD + out))
        if n <= 28:
            ps.append(prog(HEAD + ["\tmac n%sabba\n\tdc 1\n\tendm" % b, "\tmac n%sbaab\n\tdc 2\n\tendm" % b, "\tn%sabba" % b, "\tn%sbaab" % b]))
    pairs = [("ab", "ba"), ("aab", "aba"), ("a1b2", "a2b1"), ("abcd", "dcba"), ("x_y", "y_x"), ("aaab", "aaba"), ("Ab", "aB"), ("adda", "daad"), ("abba", "baab"), ("p0", "p00"), ("q", "q_"), ("caac", "acca")]
    for a, b in pairs:
        ps.append(prog(HEAD + ["%s\tequ 1" % a, "%s\tequ 2" % b, "\tdc %s,%s" % (a, b), ".%s\tset 3" % a, ".%s\tset 4" % b, "\tdc .%s,.%s" % (a, b), "1%s$\tset 5" % a if 0 else "w%s$\tset 5" % a, "w%s$\tset 6" % b, "\tdc w%s$,w%s$" % (a, b)]))
    # the same local name in many scopes
    for _ in range(40 * k):
        out = list(HEAD) + ["\tmac sc", ".l\tset {1}", "\tdc .l", "1$\tset {1}+1", "\tdc 1$", "\tendm"]
        for i in range(rng.randint(3, 12)):
            out += rng.choice([["\tsubroutine"], ["sb%d\tsubroutine" % i], [".l\tset %d" % i], ["\tdc .l"], ["1$\tset %d" % i], ["\tdc 1$"], ["lb%d" % i], ["lb%d\tequ 4" % i], ["lb%d\tdc 4" % i], ["\tsc %d" % i], ["\t\"lb\",%d\tdc 4" % (100 + i)] if 0 else ["\"lc\",%d\tdc 4" % i], ["lb%d:" % i], ["\tseg s%d" % (i % 2)], ["\torg *+1"], ["ld%d\torg *+1" % i], ["le%d\tset 3" % i], ["lf%d\teqm 3" % i], ["lg%d\talign 2" % i], ["lh%d\trorg *" % i], ["li%d\tsc 1" % i], ["\trepeat 2", ".r\tset 1", "\tdc .r", "\trepend"]])
        out += ["\tdc 1"] + (["\tif 0", "\tdc .l", "\tendif"] if rng.random() < .3 else [])
        ps.append(prog(out))
    # one kind of assignment after another to the same symbol
    kinds = ["x\tset 5", "x\tset \"st\"", "x\tsetstr abc", "x\teqm 6", "x\teqm *", "x\tequ 7", "x\tset fw", "x\tset y", "x\tsetsym y", "x\tset 0", "x\tsetstr fw", "x\tset nodef&0", "x\tset \"\""]
    for a in kinds:
        for b in kinds:
            if k == 1 and rng.random() < .35:
                continue
            ps.append(prog(HEAD + ["y\tsetstr q", "q\tequ 3", a, "\tdc x", "\techo x", b, "\tdc x", "\techo x,[x]d", "\"d\",x\tset 1", "fw\tequ 9"]))
    return ps


# ---------------------------------------------------------------- C17
def more_C17(rng, k):
    ps = [reopt(rng, p, last=[True, False]) for p in cross(rng, 10 * k, ("C17",))]
    ps += rich(rng, 70 * k, dict(list=5, call=8, comment=4), last=rng.random() < .5)
    for a in ("$ffff", "$fffe", "$10000", "$12345", "$ffffff", "$7fffffff", "-1", "-5", "$80000000", "$ffff0000", "$100000000"):
        for t in (["\tdc 1,2", "l\tdc.w 1", "l2"], ["\tseg.u q", "\torg %s" % a, "l\tds 3", "l2\tds 1"], ["\trorg %s" % a, "l\tdc 1", "l2"]):
            ps.append(prog(["\tprocessor 6502", "\torg %s" % (a if t[0][1:2] != "r" else "$1000")] + t, last=rng.random() < .5, fmt=rng.choice([1, 2])))
    for _ in range(60 * k):
        b, f = wrap(rng, rng.sample(["\tdc 1 ; c", "\tdc 1,2,3,4,5", "x_\tequ 5", "\tlda #5", "; note", "", "\tds 6", "\techo \"e\"", "\tif 0", "\tdc 256", "y_\tset 3 ; k", "\torg *+3"], rng.randint(2, 6)) + ["\tendif"], rng.choice([2, 3]))
        ps.append(src(HEAD + b + ["\tdc 9"], f, last=rng.random() < .5))
    # texts in every column
    for _ in range(30 * k):
        out = list(HEAD)
        for i in range(6):
            lab = rng.choice(["", "a%d" % i, "label%d" % i, "a_long_label_%d" % i, "a_much_much_longer_label_number_%d" % i])
            op = rng.choice(["dc", "dc.b", "lda", "nop", "ds", "equ", "align", ".byte"])
            if op == "equ" and not lab:
                op = "dc"
            arg = {"nop": "", "lda": rng.choice(["#5", "$1234,x", "(5),y"]), "ds": "3"}.get(op, rng.choice(["1", "1 , 2", "1,2,3,4,5,6,7,8,9,10", "1+2*(3-1)"]) if op != "equ" and op != "align" else "4")
            out.append(lab + rng.choice(["\t", " ", "    ", "\t\t"]) + op + rng.choice(["\t", " ", "   "]) + arg + rng.choice(["", " ; c", "\t\t; longer comment", ";x"]))
        ps.append(prog(out, eol=rng.choice(["\n", "\r\n"])))
    return ps


# ---------------------------------------------------------------- C18
def bucket(name, bits=16):
    """The hash table entry of a name, to try the first and the last and names that share one."""
    a = b = 0
    for c in name.encode():
        a = (a + c) & 255
        b = (b + a) & 255
    return (a << 8 | b) & ((1 << bits) - 1)


def more_C18(rng, k):
    ps = [reopt(rng, p, sort=[0, 0, 1, 2], symfile=[True]) for p in cross(rng, 9 * k, ("C18", "C04", "C05", "C06"))]
    pool = {}
    letters = "abcdefghijklmnopqrstuvwxyz"
    edge = []
    while len(edge) < 4:
        n = "".join(rng.choice(letters) for _ in range(rng.randint(4, 7)))
        # complete it so that it falls into the entry wanted
        want = rng.choice([0, 0, 65535, 1, 255, 256, 0xff00])
        for x in itertools.product(letters + "_0123456789", repeat=3):
            if bucket(n + "".join(x)) == want:
                edge.append(n + "".join(x))
                break
    while len(pool) < 30 or not any(len(v) > 2 for v in pool.values()):
        n = "".join(rng.choice("abc") for _ in range(8))
        pool.setdefault(bucket(n), set()).add(n)
        pool = {b: v for b, v in pool.items() if len(v) > 1 or len(pool) < 3000}
    same = sorted(max(pool.values(), key=len))[:4]
    for i in range(6 * k):
        names = rng.sample(edge + same, 4)
        out = ["%s\t%s" % (n, rng.choice(["equ %d" % j, "dc %d" % j, "set %d" % j, "eqm %d" % j])) for j, n in enumerate(names)]
        ps.append(src(HEAD + out + ["\tdc.w " + ",".join(rng.sample(names, 2))], sort=i % 3))
    ps += rich(rng, 70 * k, dict(eqm=5, str=5, dyn=4, set=5, equ=5, asked=4))
    uses = ["\tdc.w %s", "\tif %s\n\tendif", "\tifconst %s\n\tendif", "\techo %s", "z9\tset %s", "\tlda %s", "\tds %s&1", "\torg *+(%s&1)", "\talign 1+(%s&1)", "\tdv %s 1", "\trepeat %s&1\n\trepend", "", "z8\teqm %s", "z7\tsetsym %s", "\"w\",%s\tset 1", "\tif 0\n\tdc %s\n\tendif", "; %s", "\tmu %s", "\tbne %s", "\tdc \"%s\"", "%s\tset 3", "\tincbin \"d.bin\",%s&1"]
    defs = ["%s\tequ 5", "%s\tset 5", "%s\teqm ..&1", "%s\tsetstr abc", "%s\tdc 1", "%s", "%s\tset \"ab\"", "%s\teqm 3", "%s\tequ later9"]
    for u in uses:
        for d in defs:
            if k == 1 and rng.random() < .3:
                continue
            a = [(d % "s1")]
            b = (u % "s1").split("\n") if "%s" in u else []
            lines = a + b if rng.random() < .6 else b + a
            ps.append(src(["\tprocessor 6502", "\torg $1000", "\tmac mu", "\tdc {1}", "\tendm", "abc\tequ 2"] + lines + ["later9\tequ 8"], sort=rng.choice([0, 1, 2]), maxp=rng.choice([10, 10, 10, 1, 2])))
    return ps


# ---------------------------------------------------------------- C19
def more_C19(rng, k):
    """Programs of the other generators, rewritten: blanks, tabs, comments, case, line ends.  What they mean is the specification's business."""
    ps = delims(rng, k)
    # every operation in capitals, mixed letters, with a dot or # before it
    shape = {"IMP": "", "IMM8": "#5", "IMM16": "#5", "BYTEADR": "5", "BYTEADRX": "5,x", "BYTEADRY": "5,y", "WORDADR": "$1234", "WORDADRX": "$1234,x", "WORDADRY": "$1234,y", "REL": "*", "INDWORD": "($1234)", "0X": "0,x"}
    f8 = {"lr": "A,5", "bf_bt": "1,*", "branch": "*", "sreg_op": "5", "ins_outs": "5", "lis": "5", "lisu_lisl": "5", "wordop": "$1234", "byteop": "5", "sl_sr": "1"}
    def spell(n):
        w = rng.randrange(6)
        n = n.upper() if w < 2 else n.capitalize() if w == 2 else "".join(c.upper() if rng.random() < .5 else c for c in n)
        return rng.choice(["", "", "", ".", "#"]) + n
    for cpu in sorted(ISA):
        out = []
        for n, (kind, flags, modes) in sorted(ISA[cpu].items()):
            if kind == "mne":
                m = rng.choice([x for x in modes if x in shape] or ["IMP"])
                out.append((n, shape[m]))
            elif kind in f8:
                out.append((n, f8[kind]))
        for _ in range(2 * k):
            rng.shuffle(out)
            for i in range(0, len(out), 15):
                ps.append(src(["\t%s\t%s" % (spell("processor"), CPUS[cpu]), "\t%s $100" % spell("org")] + ["%s\t%s\t%s" % (rng.choice(["", "", "l%d" % j, "l%d:" % j]), spell(n), o) for j, (n, o) in enumerate(out[i:i + 15])]))
    words = [("dc", "1,2"), ("byte", "3"), ("word", "4"), ("long", "5"), ("ds", "2"), ("align", "4"), ("hex", "01fe"), ("dv", "em 5"), ("seg", "zz"), ("rorg", "$500"), ("rend", ""), ("org", "$900"), ("echo", "\"A b\",*"), ("if", "1"), ("endif", ""), ("ifconst", "em"), ("eif", ""), ("ifnconst", "em"), ("else", ""), ("endif", ""), ("repeat", "2"), ("dc", "*"), ("repend", ""), ("subroutine", ""), ("list", "off"), ("list", "on"), ("incdir", "zz"), ("include", "\"f.inc\""), ("incbin", "\"d.bin\""), ("mac", "mm"), ("dc", "{1}"), ("endm", ""), ("mm", "5"), ("macro", "nn"), ("mexit", ""), ("endm", ""), ("nn", ""), ("trace", "off"), ("res", "1"), ("setstr", "ab"), ("err", ""), ("end", ""), ("dc", "9")]
    for _ in range(25 * k):
        out = ["\tprocessor 6502", "\torg $100", "em\teqm ..+1"]
        for j, (n, o) in enumerate(words):
            if n in ("err", "end") and rng.random() < .6:
                continue
            lab = "w%d" % j if n in ("setstr",) or (n in ("dc", "word", "ds", "align", "echo") and rng.random() < .4) else ""
            out.append("%s\t%s\t%s" % (lab, n if n in ("mm", "nn") else spell(n), o))
        for n, o in (("equ", "5"), ("set", "6"), ("eqm", "7"), ("=", "8")):
            out.append("v%d\t%s\t%s" % (len(out), spell(n) if n != "=" else n, o))
        ps.append(src(out, {"f.inc": "\tDC 7\n"}, {"d.bin": bytes([1, 2, 3])}))
    pool = cross(rng, 9 * k, ("C19", "C17", "C10", "C02", "C03"))
    for p in pool:
        f = {}
        for n, b in p.files.items():
            out = []
            for l in b.decode("latin-1").replace("\r\n", "\n").split("\n"):
                if '"' not in l and "'" not in l and ";" not in l and "/*" not in l and "*/" not in l and l.strip():
                    w = rng.randrange(8)
                    if w == 0:
                        l += rng.choice([" ; note", "\t;x", ";y", " /* z */"])
                    elif w == 1:
                        l = l.replace("\t", rng.choice(["  ", " \t", "\t\t", " "]))
                    elif w == 2 and l[0] in " \t":
                        ps_ = l.split(None, 1)
                        o = ps_[0]
                        if o.isalpha() and o.lower() in ("dc", "ds", "lda", "org", "if", "else", "endif", "repeat", "repend", "include", "incbin", "echo", "align", "seg", "rorg", "rend", "nop", "equ", "hex", "subroutine", "processor"):
                            o2 = rng.choice([o.upper(), o.capitalize(), "." + o, "#" + o, "." + o.upper()])
                            l = "\t" + o2 + ("\t" + ps_[1] if len(ps_) > 1 else "")
                    elif w == 3 and l[0] not in " \t" and l.split(None, 1)[0].replace("_", "a").isalnum() and len(l.split()) > 1 and l.split()[1].lower() not in ("=",):
                        h = l.split(None, 1)
                        l = h[0] + ":" + "\t" + h[1]
                    elif w == 4:
                        out.append(rng.choice(["", "; full", "\t", "/* one */", "/* two\n lines */"]))
                    elif w == 5:
                        l += rng.choice([" ", "\t", "  \t "])
                out.append(l)
            eol = rng.choice(["\n", "\n", "\r\n"])
            f[n] = eol.join("\n".join(out).split("\n")).encode("latin-1")
        p.files = f
        if all(len(l) < 480 for b in f.values() for l in b.split(b"\n")):
            ps.append(p)
    return ps


# ---------------------------------------------------------------- C20
def more_C20(rng, k):
    ps = rich(rng, 80 * k, dict(echo=16, call=6, rep=6), remove=False)
    for p in cross(rng, 7 * k, ("C20", "C04", "C05", "C06")):
        p.extra = rng.choice([[], ["-v1"], ["-v2"], ["-v3"], ["-v4"], ["-d1"], ["-v4", "-d1"]])
        ps.append(reopt(rng, p, sort=[0, 1, 2], errfmt=[0, 1, 2], symfile=[True, False], last=[True, False]))
    return ps
