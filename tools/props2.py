"""Programs for the properties C11-C20."""
from gen import CPUS, ISA, Gen, Source, prog
from dasmlib import Prog
from props1 import AUX, BIN, source

HEAD = ["\tprocessor 6502", "\torg $1000"]


# ---------------------------------------------------------------- C11
def gen_C11(rng, k):
    ps = []
    for _ in range(330 * k):
        out = ["\tprocessor " + rng.choice(["6502", "6502", "6803", "f8"])]
        n = [0]
        segs = ["a", "b", "ram", "initial code segment", "A_very_long_segment_name"]
        rel = rng.random() < .5

        def lab(p=.6):
            if rng.random() < p:
                n[0] += 1
                return "l%d" % n[0]
            return ""
        top = 0x1000
        if rng.random() < .8:
            out.append("%s\torg $%x" % (lab(.2), rng.choice([0, 0x80, 0x1000])))
        for _ in range(rng.randint(4, 14)):
            w = rng.randrange(14)
            if w < 2:
                out.append("%s\tdc.%s %s" % (lab(), rng.choice("bwl"), ",".join(str(rng.randint(0, 99)) for _ in range(rng.randint(1, 4)))))
            elif w == 2:
                out.append("%s\tds %s" % (lab(), rng.choice(["1", "2", "7", "0", "sz", "fsz"])))
            elif w == 3:
                out.append("%s\talign %s" % (lab(), rng.choice(["2", "4", "16", "7", "fsz+1"])))
            elif w in (4, 5):
                out.append("%s\tseg%s %s" % (lab(.2), rng.choice(["", "", ".u"]), rng.choice(segs)))
                if rng.random() < .6:
                    top += 0x200
                    out.append("%s\torg %s" % (lab(.3), rng.choice(["$%x" % top, "$80", "$%x" % top, "forg+$%x" % top])))
            elif w == 6:
                top += rng.choice([0x100, 0x180])
                out.append("%s\torg $%x%s" % (lab(.4), top, rng.choice(["", ",$11"])))
            elif w == 7:
                out.append("%s\torg *%s" % (lab(.4), rng.choice(["", "+3", "+$10", "-1"])))
            elif w in (8, 9) and rel:
                out.append("%s\trorg %s" % (lab(.4), rng.choice(["$f000", "$0", "$80", "*", "*+5", "forg", "l1", "$fffe"])))
            elif w == 10 and rel:
                out.append("%s\trend" % lab(.4))
            elif w == 11:
                out.append("%s\tdc.w *,.%s" % (lab(), ",l%d" % rng.randint(1, n[0] + 1) if rng.random() < .6 else ""))
            elif w == 12:
                out.append("%s\tequ *%s" % (lab(1), rng.choice(["", "+1", "-2"])))
            else:
                out.append(lab(1))
        out += ["sz\tequ 3", "fsz\tequ 5", "forg\tequ $20"]
        for i in range(n[0], n[0] + 2):
            if not any(l.startswith("l%d\t" % i) or l == "l%d" % i for l in out):
                out.append("l%d\tdc 0" % i)
        ps.append(prog(out, fmt=rng.choice([1, 2, 2, 3])))
    for _ in range(60 * k):
        ps.append(prog(source(rng, rng.randint(5, 14), org=4, seg=5, rorg=4, align=3), fmt=rng.choice([1, 2, 3])))
    fixed = [
        ["\tseg a", "\torg 5", "x\tdc 1", "\tseg b", "\torg $50", "y\tdc 2", "\tseg a", "z\tdc 3", "\tseg b", "w\tdc 4", "\tdc.w x,y,z,w"],
        ["\tseg a", "\torg 5", "\trorg $f000", "x\tdc 1", "\tseg b", "\torg $50", "y\tdc.w *", "\tseg a", "z\tdc 3", "\trend", "q\tdc.w *,x,y,z,q"],
        ["\tseg.u a", "\torg $80", "x\tds 2", "y\tds 1", "z\talign 16", "q", "\tseg c", "\torg $1000", "\tdc.w x,y,z,q"],
        ["\tseg.u a", "\torg later", "x\tds 2", "y\tds 1", "\tseg c", "\torg $1000", "\tdc.w x,y", "later\tequ $77"],
        ["\torg $100", "\trorg $200", "a", "\trorg $300", "b", "\trend", "c", "\trend", "d", "\tdc.w a,b,c,d"],
        ["\torg $100", "\trorg $200", "a\tdc 1", "\torg $120", "b\tdc 2", "\trend", "c\tdc.w a,b,c"],
        ["\torg $100", "\trorg $200", "\tds 5", "\torg *", "b\tdc.w b"],
        ["\torg $100", "\trorg fw", "a\tdc.w a", "\trend", "b\tdc.w b", "fw\tequ $f00"],
        ["\torg fw", "a\tdc.w a", "b\tdc.w b", "fw\tequ $f00"],
        ["\torg fw", "a\tdc.w a", "\tseg x", "\torg a+$100", "b\tdc.w b", "\tseg x", "fw\tequ $f00"],
        ["\tdc.w *", "a\tdc.w a"], ["\tseg x", "\tdc.w *"], ["\tseg.u x", "a\tds 5", "\tseg y", "\torg 3", "\tdc.w a"],
        ["a\torg $100", "b\torg $200", "c\trorg $300", "d\trend", "e\tseg q", "f\tdc 1"],
        ["\tseg a", "\tseg b", "\tseg a", "\torg 5", "q\tdc.w q"],
        ["\tseg.u a", "\torg 5", "x\tds 2", "\tseg a", "y\tds 2", "\tdc.w y"],
        ["\tseg a", "\torg 5", "x\tdc 2", "\tseg.u a", "y\tds 2", "\tseg b", "\torg 20", "\tdc.w y,x"],
        ["\torg $ffff", "a\tdc 1", "b\tdc 2", "c\tdc.w b&$ffff"], ["\torg $10000", "a\tdc.l a"], ["\torg -5", "a\tdc.l a"],
        ["\torg $1000", "\tds 10", "\torg $1005", "\tdc 1"], ["\torg $1000", "\trorg $1000", "\tds 10", "\trend", "\torg $1009", "\tdc 1"], ["\torg $1000", "\trorg $f000", "\tds 10", "\torg $f100", "\tdc 1"],
    ]
    for t in fixed:
        for f in (1, 2, 3):
            ps.append(prog(["\tprocessor 6502"] + t, fmt=f))
    return ps


# ---------------------------------------------------------------- C12
def gen_C12(rng, k):
    ps = []
    n = [0]

    def junk():
        """what must have no effect when skipped"""
        n[0] += 1
        return rng.choice([["\tfrob 5"], ["\terr"], ["\tdc 1/0"], ["\tlda ((("], ["\tinclude \"none.h\""], ["\tincbin \"none\""], ["\torg 5"], ["\trorg 5"], ["\tseg other"], ["\tprocessor 68705"], ["lx%d\tequ 5" % n[0]], ["lx%d" % n[0]],
                           ["kk\tset 99"], ["\trepeat 3", "\tdc 7", "\trepend"], ["\trepeat 3"], ["\trepend"], ["\tmac skipped", "\tdc 1", "\tendm"], ["\tmac mk", "\tdc 99", "\tendm"], ["\tmk 5"], ["\tlist off"], ["\techo \"no\""], ["\tend"], ["\tmexit"],
                           ["\tsubroutine"], ["str\tsetstr zz"], ["e1\teqm 7"], ["kz\tequ 77"], ["\tds 100"], ["\talign 256"], ["\thex 01"], ["\tdc \"else\""], ["; endif"], ["\tdc 1 ; else"], ["\tincdir \"x\""], ["\trend"], ["l0"], [".lo"], ["9$"], ["kk\teqm 5"], ["\tdv kk 1"], ["\ttrace on"], ["\tdc \"unclosed"], ["\tdc )"], ["1bad"]])

    def live():
        n[0] += 1
        return rng.choice([["\tdc %d" % (n[0] & 255)], ["lv%d" % n[0]], ["kk\tset kk+1"], ["\tdc kk"], ["\tmk 1"], ["\tdc.w *"], ["\trepeat 2", "\tdc kk&255", "\trepend"], ["\techo \"yes\",kk"], ["\tds 1"], ["\tsubroutine"], ["\tdc.w fw"]])

    def cond():
        """(directive and condition)"""
        return rng.choice(["if 1", "if 0", "if kk", "if kk>2", "if kz=5", "if kz!=5", "ifconst kz", "ifnconst kz", "ifconst nope", "ifnconst nope", "if fw", "if fw<10", "ifconst fw", "ifnconst fw", "if !kk", "if *&1", "if 1 && kk", "IF 1", ".if 0", "if -1", "if \"\"", "if 256", "if $100000000", "ifconst kk", "if fw && 0", "if 1 || fw", "ifconst str", "if lat", "ifconst lat", "ifnconst lat"])

    def block(d, on):
        out = []
        for _ in range(rng.randint(1, 3)):
            w = rng.random()
            if d > 0 and w < .45:
                c = cond()
                out.append("\t" + c)
                known = {"if 1": 1, "if 0": 0, "IF 1": 1, ".if 0": 0, "if -1": 1, "if 256": 1, "ifconst kz": 1, "ifnconst kz": 0, "ifconst nope": 0, "ifnconst nope": 1, "if kz=5": 1, "if kz!=5": 0, "if $100000000": 1}.get(c)
                t = on if known == 1 else "off" if known == 0 or on == "off" else "maybe"
                e = on if known == 0 else "off" if known == 1 or on == "off" else "maybe"
                out += block(d - 1, t)
                if rng.random() < .6:
                    out.append(rng.choice(["\telse", "\tELSE", "\t.else"]))
                    out += block(d - 1, e)
                out.append(rng.choice(["\tendif", "\teif", "\tENDIF"]))
            elif on == "off":
                out += junk()
            else:
                out += live()
        return out
    for i in range(420 * k):
        body = block(rng.choice([1, 2, 2, 3, 3, 4]), "on")
        out = HEAD + ["kk\tset %d" % rng.choice([0, 1, 2, 3]), "kz\tequ 5", "str\tsetstr abc", "\tmac mk", "\tdc {1},kk&255", "\tendm", "l0\tdc 0"] + body + ["fw\tequ %d" % rng.choice([0, 3, 20]), "lat\tdc.w lat"]
        if rng.random() < .15:
            out = out[:-2] + ["lat\tdc 1"]                 # fw never defined
        ps.append(prog(out, strict=rng.random() < .15))
    for d in (5, 10, 30, 60):                             # deep nesting
        for at in (0, d // 2, d - 1, d):
            out = list(HEAD)
            for i in range(d):
                out += ["\tif %d" % (i != at), "\tdc %d" % (i & 255)]
            for i in reversed(range(d)):
                out += ["\telse", "\tdc 200", "\tendif"]
            ps.append(prog(out + ["\tdc 255"]))
    # conditionals inside macros, loops and includes, and jumping out of them
    for _ in range(110 * k):
        c = cond()
        v = rng.choice(["0", "1", "2", "kk"])
        t = rng.choice([
            ["\tmac mx", "\tif {1}", "\tdc 1", "\telse", "\tdc 2", "\tendif", "\tendm", "\tmx %s" % v, "\tmx 1", "\tmx 0"],
            ["\tmac mx", "\tif {1}", "\tmexit", "\tendif", "\tdc 2", "\tendm", "\tmx %s" % v, "\tdc 3", "\tmx 0", "\tdc 4"],
            ["\tmac mx", "\tif {1}", "\tdc 9", "\tendm", "\tmx %s" % v, "\tdc 3"],
            ["\t" + c, "\tmac my", "\tdc 1", "\tendm", "\telse", "\tmac my", "\tdc 2", "\tendm", "\tendif", "\tmy"],
            ["\trepeat 3", "\t" + c, "\tdc 1", "\telse", "\tdc 2", "\tendif", "kk\tset kk+1", "\trepend"],
            ["\t" + c, "\trepeat 2", "\tdc kk", "\trepend", "\tendif"],
            ["\trepeat 2", "\tif kk", "\trepeat 2", "\tdc 1", "\trepend", "\telse", "\tdc 2", "\tendif", "kk\tset 1-kk", "\trepend"],
            ["\t" + c, "\tinclude \"c.h\"", "\telse", "\tinclude \"d.h\"", "\tendif"],
            ["\tinclude \"o.h\"", "\tdc 5", "\tendif"],
            ["\tif 0", "\tinclude \"o.h\"", "\tendif", "\tdc 5"],
            ["\tif 0", "\tmac q", "\tif 1", "\tendm", "\tendif", "\tdc 5", "\tendif"],
            ["\tif 1", "\tmac q", "\tif {1}", "\tdc 8", "\tendif", "\tendm", "\tendif", "\tq 1", "\tq 0", "\tdc 5"],
            ["\tif 1", "\tdc 1", "\telse", "\tdc 2", "\telse", "\tdc 3", "\tendif"],
            ["\tif 0", "\tdc 1", "\telse", "\tdc 2", "\telse", "\tdc 3", "\tendif"],
            ["\tif 0", "\tif 1", "\tdc 1", "\telse", "\tdc 2", "\tendif", "\telse", "\tif 0", "\tdc 3", "\telse", "\tdc 4", "\tendif", "\tendif"],
            ["\tdc 1", "\tendif", "\tdc 2"], ["\telse", "\tdc 2"], ["\tif 1", "\tdc 4"], ["\tif 0", "\tdc 4"],
        ])
        ps.append(Prog({"m.asm": "\n".join(HEAD + ["kk\tset 1", "kz\tequ 5", "str\tsetstr q"] + t + ["fw\tequ 3", "lat\tdc.w lat"]) + "\n", "c.h": "\tdc 11\n\tif 1\n\tdc 12\n\tendif\n", "d.h": "\tdc 13\n", "o.h": "\tif 1\n\tdc 14\n"}, strict=rng.random() < .2))
    return ps


# ---------------------------------------------------------------- C13
def gen_C13(rng, k):
    ps = []

    def body(d, vs):
        out = []
        for _ in range(rng.randint(1, 3)):
            w = rng.randrange(10)
            v = rng.choice(vs)
            if w < 3:
                out.append("\tdc %s&255" % v)
            elif w == 3:
                out.append("%s\tset %s+1" % (v, v))
            elif w == 4:
                out += ["\tif %s&1" % v, "\tdc 100", "\telse", "\tds 2", "\tendif"]
            elif w == 5:
                out.append("\tdc.w *")
            elif w in (6, 7) and d > 0:
                q = "i%d" % rng.randint(0, 99)
                out += ["%s\tset 0" % q, "\trepeat %s" % rng.choice(["0", "1", "2", "3", "%s&3" % v, "cnt"])] + body(d - 1, vs + [q]) + ["%s\tset %s+1" % (q, q), "\trepend"]
            elif w == 8:
                out.append("\tmr %s" % v)
            else:
                out.append("\techo %s" % v)
        return out
    for _ in range(300 * k):
        c = rng.choice(["0", "1", "2", "3", "5", "cnt", "fc", "kk", "-1", "fneg", "1-1", "lat&3"])
        out = HEAD + ["kk\tset 2", "cnt\tequ 2", "\tmac mr", "\tdc {1}&255", "\trepeat 2", "\tdc 55", "\trepend", "\tendm", "i\tset 0", "\trepeat " + c] + body(rng.choice([0, 1, 2, 3]), ["i", "kk"]) + ["i\tset i+1", "\trepend", "\tdc.w *,i", "fc\tequ 3", "fneg\tequ -2", "lat\tdc.w lat"]
        ps.append(prog(out))
    for n in (10, 100, 254, 255, 256, 257, 300, 600):
        ps.append(prog(HEAD + ["\trepeat %d" % n, "\tdc 1", "\trepend", "\tdc.w *"]))
    for n, m in ((20, 15), (16, 16), (3, 100), (100, 3), (2, 130)):
        ps.append(prog(HEAD + ["i\tset 0", "\trepeat %d" % n, "\trepeat %d" % m, "i\tset i+1", "\trepend", "\tdc.w i", "\trepend"]))
    for d in (2, 3, 5, 7):
        ps.append(prog(HEAD + ["\trepeat 2"] * d + ["\tdc 1"] + ["\trepend"] * d + ["\tdc.w *"]))
        ps.append(prog(HEAD + sum([["\trepeat %d" % (i % 3), "\tdc %d" % i] for i in range(1, d + 1)], []) + sum([["\trepend", "\tdc %d" % (100 + i)] for i in range(d)], []) + ["\tdc.w *"]))
    for _ in range(120 * k):
        c = rng.choice(["0", "1", "2", "3", "fc", "-1"])
        t = rng.choice([
            ["\trepeat " + c, "\tinclude \"r.h\"", "\trepend"],
            ["\tinclude \"loop.h\"", "\tdc 9"],
            ["\trepeat " + c, "\tinclude \"loop.h\"", "\trepend"],
            ["\tmac ml", "\trepeat {1}", "\tdc {2}", "\trepend", "\tendm", "\tml %s,5" % c, "\tml 2,7"],
            ["\tmac ml", "\trepeat {1}", "\tdc {2}", "\tmexit", "\trepend", "\tendm", "\tml %s,5" % c, "\tdc 7"],
            ["\tmac ml", "\trepeat {1}", "\tdc {2}", "\tendm", "\tml %s,5" % c, "\tdc 7"],
            ["\trepeat " + c, "\tif 1", "\tdc 1", "\telse", "\trepend", "\tendif", "\tdc 7", "\trepend"],
            ["\tif 0", "\trepeat " + c, "\tdc 1", "\trepend", "\tendif", "\tdc 7"],
            ["\trepeat 0", "\tif 1", "\tdc 3", "\tendif", "\trepeat 5", "\tdc 4", "\trepend", "\trepend", "\tdc 7"],
            ["\trepeat 0", "\tfrob", "\terr", "l1\tequ 5", "\trepend", "\tdc 7"],
            ["\trepeat -1", "\tdc 5", "\trepend", "\tdc 7"], ["\trepend", "\tdc 1"], ["\trepeat 2", "\tdc 1"], ["\trepeat undefd", "\tdc 1", "\trepend"],
            ["\trepeat " + c, ".a\tdc 1", "\tsubroutine", "\trepend"], ["n\tset 0", "\trepeat 3", "n\tset n+1", "\"lb\",n\tdc n", "\trepend", "\tdc.w lb1,lb2,lb3"],
            ["\trepeat 3", "\trepeat fc", "\tdc 1", "\trepend", "\tdc 2", "\trepend"], ["\trepeat fc", "\tdc 1", "\trepeat 2", "\tdc 2", "\trepend", "\trepend"],
            ["\trepeat 2", "\tmac inl", "\tdc {1}", "\tendm", "\tinl 5", "\trepend"], ["n\tset 3", "\trepeat n", "n\tset n+1", "\tdc n", "\trepend"],
            ["\trepeat 3", "\torg *+5", "\tdc 1", "\trepend"], ["\trepeat 3", "\talign 4", "\tdc.w *", "\trepend"], ["\trepeat 3", "1$\tdc 1", "\trepend"], ["\trepeat 2", "lq\tdc 1", "\trepend"],
            ["\trepeat 2", "\tdc 1", "\tend", "\trepend", "\tdc 3"], ["\trepeat 3,4", "\tdc 1", "\trepend"], ["\trepeat", "\tdc 1", "\trepend"], ["\trepeat #2", "\tdc 1", "\trepend"],
            ["x\trepeat 2", "\tdc 1", "y\trepend"], ["\t.repeat 2", "\tdc 1", "\tREPEND", "\tdc 5"], ["\trepeat 2 ; c", "\tdc 1", "\trepend ; d"],
            ["\trepeat 2", "\tincbin \"d.bin\"", "\trepend"], ["\trepeat lat-lat+2", "\tdc 1", "\trepend"], ["\trepeat *&3", "\tdc 1", "\trepend"],
        ])
        ps.append(Prog({"m.asm": "\n".join(HEAD + t + ["fc\tequ 3", "lat\tdc.w lat"]) + "\n", "r.h": "\tdc 21\n\trepeat 2\n\tdc 22\n\trepend\n", "loop.h": "\trepeat 2\n\tdc 31\n\trepend\n\tdc 32\n"}, BIN))
    return ps


# ---------------------------------------------------------------- C14
def gen_C14(rng, k):
    ps = []
    args = ["5", "fw", "lat", "\"str\"", "1+2", "(3)", "[4]", "'c", "$10", "#7", "*", "<lat", "a b", "", " 5", "5 ", "\"a,b\"", "x_1", "{1}", "\"\"", "kk", "-1", "!0", "lat,x"]
    bodies = [["\tdc.w {1}"], ["\tdc.b {1}&255"], ["\tdc.w {1},{2}"], ["\tdc {0}"], [".l\tdc.w .l,{1}"], ["\tdc.w .f", ".f\tdc {1}&255"], ["1$\tdc.w 1$"], ["\tdc.w 1$", "1$"], ["\tlda {1}"], ["\tif {1}", "\tdc 1", "\telse", "\tdc 2", "\tendif"],
              ["\trepeat {1}&3", "\tdc 4", "\trepend"], ["\tif {1}", "\tmexit", "\tendif", "\tdc 3"], ["q{1}\tdc 1"], ["{1}\tdc 1"], ["\t{1}\t5"], ["\tdc \"{1}\""], ["\tdc {2}"], ["\tdc {9}"], ["\tdc {1} ; {2}"], ["; {5}"], ["\techo \"{1}\",{1}"],
              ["\tdc.{1} 5"], ["kk\tset {1}", "\tdc kk&255"], ["\tsubroutine", ".z\tdc.w .z"], ["\tdc.w {1}{2}"], ["\tdc {1}+{1}"], ["\tinclude \"i.h\""], ["\tend", "\tdc 9"], ["\tdc 1", "\tmexit", "\tdc 2"], ["\tdc $%02x" % rng.randrange(256)]]
    for _ in range(430 * k):
        out = list(HEAD) + ["kk\tset 1", "x_1\tequ 3"]
        ms = ["m%d" % i for i in range(rng.randint(1, 3))]
        for j, m in enumerate(ms):
            b = sum((rng.choice(bodies) for _ in range(rng.randint(1, 3))), [])
            if j and rng.random() < .5:
                b.insert(rng.randint(0, len(b)), "\t%s %s" % (rng.choice(ms[:j]), rng.choice(["{1}", "{0}", "{2},{1}", "3", "{1},4"])))
            out += ["\t%s %s" % (rng.choice(["mac", "macro", "MAC", ".mac"]), m)] + b + [rng.choice(["\tendm", "\tENDM"])]
            if rng.random() < .3:
                out.append(".sc\tdc.w .sc")
        for _ in range(rng.randint(1, 4)):
            out.append("%s\t%s\t%s" % (rng.choice(["", "", "lc%d" % rng.randint(0, 9999)]), rng.choice(ms), rng.choice([",", ", ", " ,"]).join(rng.choice(args) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])))))
            if rng.random() < .3:
                out += rng.choice([["\tdc.w .sc2", ".sc2"], ["1$\tdc.w 1$"], ["\tsubroutine"], ["kk\tset kk+1"], ["\tdc.w *"]])
        ps.append(Prog({"m.asm": "\n".join(out + ["fw\tequ %d" % rng.choice([0, 1, 2, 300]), "lat\tdc.w lat"]) + "\n", "i.h": "\tdc 77\n\tend\n\tdc 78\n"}, strict=rng.random() < .1))
    fixed = [
        ["\tmac m", "\tdc {1},{2},{3},{4},{5},{6},{7},{8},{9},{10},{11},{12}", "\tendm", "\tm 1,2,3,4,5,6,7,8,9,10,11,12"],
        ["\tmac m", "\tdc {1},{11}", "\tendm", "\tm 1,2,3,4,5,6,7,8,9,10,11,12", "\tm 1,2"],
        ["\tmac fact", "\tif {1}", "\tdc {1}", "\tfact {1}-1", "\tendif", "\tendm", "\tfact 4", "\tfact 2"],
        ["\tmac o", "\ti1 {1}", "\tdc 2", "\tendm", "\tmac i1", "\tdc {1}", "\tendm", "\to 5"],
        ["\tm 5", "\tmac m", "\tdc {1}", "\tendm", "\tm 6"],
        ["\tmac m", "\tdc 1", "\tendm", "\tm", "\tmac m", "\tdc 2", "\tendm", "\tm"],
        ["\tsubroutine", ".a\tequ 5", "\tmac m", ".a\tequ {1}", "\tdc .a", "\tendm", "\tdc .a", "\tm 7", "\tdc .a", "\tm 8", "\tdc .a"],
        ["\tmac m", ".a\tdc 1", "\tbne .a", "\tn", "\tbne .a", "\tendm", "\tmac n", ".a\tdc 2", "\tbne .a", "\tendm", ".a\tdc 3", "\tm", "\tbne .a", "\tm"],
        ["l1\tdc 1", "1$\tdc 2", "\tmac m", "1$\tdc 1", "\tbne 1$", "\tendm", "\tm", "\tbne 1$", "\tm", "\tbne 1$"],
        ["\tmac m", "lb{1}\tdc.w lb{1}", "\tendm", "\tm 1", "\tm 2", "\tdc.w lb1,lb2"],
        ["\tmac m", "\tif {1}", "\tdc 1", "\tif 1", "\tmexit", "\tendif", "\tendif", "\tdc 2", "\tendm", "\tm 1", "\tm 0", "\tdc 5"],
        ["\tmac m", "\trepeat 3", "\tdc 1", "\tmexit", "\trepend", "\tendm", "\tm", "\tdc 5", "\trepeat 2", "\tm", "\trepend", "\tdc 6"],
        ["\tmac m", "\tendm", "\tm", "\tdc 1", "\tm 1,2,3"], ["\tmac", "\tdc 1", "\tendm"], ["\tmac a b", "\tdc 1", "\tendm", "\ta", "\ta b"], ["\tmac lda", "\tdc $55", "\tendm", "\tlda #5"], ["\tmac dc", "\thex 55", "\tendm", "\tdc 5"],
        ["\tmac m", "\tdc 1"], ["\tendm"], ["\tmexit"], ["\tmac m", "\tm2", "\tendm", "\tm"], ["\tMac M", "\tdc 1", "\tendm", "\tm", "\tM"], ["\tmac m", "\tdc 5", "\tendm", "\tm.w 5", "\t.m 5", "\t#m"],
        ["\tmac m", "\tdc \"{1}\"", "\tendm", "\tm abc", "\tm \"q\"", "\tm a b c"], ["\tmac m", "\tdc.w {1}", "\tendm", "\tm \"a;b\"", "\tm 5;6"], ["\tmac m", "\tdc {1}", "\tendm", "\tm {1}"], ["\tdc {1}"], ["\tmac m", "\tdc {x}", "\tendm", "\tm 5"], ["\tmac m", "\tdc {1", "\tendm", "\tm 5"],
        ["\tmac m", "\tdc {-1}", "\tendm", "\tm 5"], ["\tmac m", "\tdc {01}", "\tendm", "\tm 5"], ["\tmac m", "\tdc {1x}", "\tendm", "\tm 5"],
        ["\tmac a", "\tb {1},1", "\tendm", "\tmac b", "\tc {2},{1},2", "\tendm", "\tmac c", "\tdc {3},{2},{1},\"{0}\"", "\tendm", "\ta 9"],
        ["\tinclude \"mm.h\"", "\tfm 5", "\tfm 6"], ["\tif 1", "\tmac z", "\tdc 3", "\tendm", "\tendif", "\tz"], ["\tif 0", "\tmac z", "\tdc 3", "\tendm", "\tendif", "\tz"], ["\trepeat 2", "\tmac z", "\tdc 3", "\tendm", "\tz", "\trepend"],
        ["lab\tmac z", "\tdc 3", "\tendm", "\tz"], ["\tmac z", "\tdc 3", "x\tendm", "\tz", "\tz"], ["\tmac z", "\tdc.w *", "\tendm", "lab\tz", "lab2 z", "\tdc.w lab,lab2"],
    ]
    for t in fixed:
        for s in (False, True):
            ps.append(Prog({"m.asm": "\n".join(HEAD + t) + "\n", "mm.h": "\tmac fm\n.l\tdc {1}\n\tbne .l\n\tendm\n\tdc 99\n"}, strict=s))
    for i in range(50 * k):
        ps.append(prog(source(rng, rng.randint(4, 12), macro=8, local=2, dollar=2)))
    return ps


# ---------------------------------------------------------------- C15
def gen_C15(rng, k):
    ps = []
    for _ in range(330 * k):
        dirs = ["", "inc/", "lib/", "lib/sub/", "x.d/"]
        files, bins = {}, {}
        names = ["a.h", "b.h", "c.h"]
        for d in dirs:
            for f in names:
                if rng.random() < .45:
                    body = ["\tdc %d" % rng.randint(1, 255)]
                    if rng.random() < .3:
                        body.append(rng.choice(["\tdc.w lat", "lb_%s\tdc 1" % f[0], "kk\tset kk+1", "\tdc kk", "\tend\n\tdc 250", "\tif 1\n\tdc 3\n\tendif", "\tinclude \"deep.h\"", "\tmac im\n\tdc 8\n\tendm", "\tsubroutine", ".l\tdc.w .l", "\torg *+3"]))
                    files[d + f] = rng.choice(["\n", "\r\n"]).join(body) + rng.choice(["\n", "", "\n\n"])
            for f in ("p.bin", "q.bin"):
                if rng.random() < .5:
                    bins[d + f] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 10, 50])))
        files["deep.h"] = "\tdc 222\n\tinclude \"deep2.h\"\n\tdc 223\n"
        files["deep2.h"] = "\tdc 224\n" + rng.choice(["", "\tend\n\tdc 9\n", "; x"])
        body = list(HEAD) + ["kk\tset 1"]
        for _ in range(rng.randint(2, 7)):
            w = rng.randrange(10)
            if w < 4:
                f = rng.choice(names + ["inc/a.h", "lib/sub/b.h", "sub/c.h"])
                body.append("\t%s\t%s" % (rng.choice(["include", "include", "INCLUDE"]), rng.choice(['"%s"', '"%s"', "%s"]) % f))
            elif w < 7:
                f = rng.choice(["p.bin", "q.bin", "inc/p.bin", "a.h"])
                sk = rng.choice(["", "", ",1", ",2", ",5", ",100", ",fs", ",kk", ",0"])
                body.append("%s\tincbin\t%s" % (rng.choice(["", "bl%d" % rng.randint(0, 999)]), (rng.choice(['"%s"', '"%s"', "%s"]) % f) + sk))
            elif w == 7:
                body.append("\tincdir\t%s" % (rng.choice(['"%s"', "%s"]) % rng.choice(["inc", "lib", "inc/", "lib/sub", "none", "x.d"])))
            else:
                body.append(rng.choice(["\tdc.w *", "\tdc kk", "\tdc.w lat"]))
        body += ["fs\tequ 2", "lat\tdc.w lat"]
        files["m.asm"] = rng.choice(["\n", "\n", "\r\n"]).join(body) + "\n"
        defs = ["-I" + rng.choice(["inc", "lib", "inc/", "lib/sub", "nodir", "x.d"]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        ps.append(Prog(files, bins, defs=defs, fmt=rng.choice([1, 2, 3])))
    both = {"a.h": "\tdc 1\n", "inc/a.h": "\tdc 2\n", "lib/a.h": "\tdc 3\n", "lib/b.h": "\tdc 4\n\tinclude \"a.h\"\n", "inc/c.h": "\tdc 5\n", "lib/c.h": "\tdc 6\n", "nl.h": "\tdc 7", "empty.h": "", "end.h": "\tdc 8\n\tend\n\tdc 9\n", "open.h": "\tif 1\n", "omac.h": "\tmac z\n\tdc 1\n", "cmt.h": "/* open\n", "ctl.h": "\tlist off\n"}
    bins = {"d.bin": bytes(range(20)), "e.bin": b"", "inc/d.bin": b"xyz", "lib/f.bin": b"lib", "inc/f.bin": b"inc", "big.bin": bytes(i & 255 for i in range(700)),
            "huge.bin": bytes((i * 7 + (i >> 8)) & 255 for i in range(2500))}
    fixed = [
        (["\tinclude \"a.h\"", "\tinclude \"inc/a.h\"", "\tinclude \"c.h\""], ["-Iinc", "-Ilib"]), (["\tinclude \"c.h\""], ["-Ilib", "-Iinc"]), (["\tinclude \"c.h\""], []), (["\tincdir \"lib\"", "\tinclude \"c.h\""], ["-Iinc"]), (["\tincdir \"inc\"", "\tincdir \"lib\"", "\tinclude \"c.h\"", "\tinclude \"b.h\""], []),
        (["\tincbin \"f.bin\""], ["-Iinc", "-Ilib"]), (["\tincbin \"f.bin\""], ["-Ilib", "-Iinc"]), (["\tincbin \"f.bin\""], []), (["\tincbin \"d.bin\""], ["-Iinc"]), (["\tincbin \"d.bin\",19", "x\tdc.w x"], []), (["\tincbin \"d.bin\",20", "x\tdc.w x"], []), (["\tincbin \"d.bin\",21", "x\tdc.w x"], []),
        (["\tincbin \"e.bin\"", "x\tdc.w x"], []), (["\tincbin \"d.bin\",fs", "x\tdc.w x", "fs\tequ 3"], []), (["\tincbin \"big.bin\"", "x\tdc.w x"], []), (["\tincbin \"big.bin\",600", "x\tdc.w x"], []), (["\tincbin \"nope\""], []), (["\tinclude \"nope\""], []), (["\tinclude \"nl.h\"", "\tdc 1"], []), (["\tinclude \"empty.h\"", "\tdc 1"], []),
        (["\tinclude \"end.h\"", "\tdc 1"], []), (["\tdc 1", "\tend", "\tdc 2", "\tinclude \"a.h\""], []), (["\tinclude \"open.h\"", "\tdc 1", "\tendif"], []), (["\tinclude \"omac.h\"", "\tdc 1"], []), (["\tinclude \"cmt.h\"", "\tdc 1"], []), (["\tinclude \"ctl.h\"", "\tdc 1"], []), (["\tif 0", "\tinclude \"nope\"", "\tincbin \"nope\"", "\tendif", "\tdc 1"], []),
        (["\tmac m", "\tinclude \"{1}\"", "\tendm", "\tm a.h", "\tm nl.h"], []), (["\trepeat 3", "\tinclude \"a.h\"", "\trepend"], []), (["\trepeat 3", "\tincbin \"d.bin\",17", "\trepend"], []), (["\tseg.u z", "\torg $80", "\tincbin \"d.bin\"", "y\tds 1", "\tseg c", "\torg $1000", "\tdc.w y"], []), (["\trorg $f000", "\tincbin \"d.bin\"", "y\tdc.w y"], []),
        (["\tincbin \"d.bin\"", "\tdc.w lt", "lt"], []), (["\tincbin d.bin", "\tinclude a.h"], []), (["\tincbin \"d.bin\" ; c", "\tinclude \"a.h\" ; c"], []), (["\tincbin \"d.bin\",fs", "fs\tequ lt-lt+3", "lt"], []), (["lab\tincbin \"d.bin\"", "lb2\tinclude \"a.h\"", "\tdc.w lab,lb2"], []), (["\tincdir nodir", "\tincdir \"inc\"", "\tinclude \"c.h\""], []),
    ]
    for sk in ["", ",1", ",500", ",1000", ",1023", ",1024", ",1025", ",1400", ",1476", ",2000", ",2047", ",2048", ",2049", ",2499", ",2500", ",2501", ",lt-lt+1030"]:
        fixed.append((["\tincbin \"huge.bin\"%s" % sk, "x\tdc.w x", "lt"], []))
    for t, defs in fixed:
        for f in (1, 2, 3) if k > 1 else (rng.choice([1, 2, 3]),):
            ps.append(Prog(dict(both, **{"m.asm": "\n".join(HEAD + t) + "\n"}), bins, defs=defs, fmt=f))
    return ps


# ---------------------------------------------------------------- C16
def gen_C16(rng, k):
    ps = []
    names = ["a", "A", "b", "ab", "aB", "Ab", "long_name_number_one_is_here", "long_name_number_one_is_herf", "z.9", "_u", "a1", "lab@x", "n?"]
    # names whose hash values may collide, anagrams
    names += ["abc", "acb", "bac", "cba", "cab", "bca", "a_b", "b_a", "q12", "q21"]
    for _ in range(330 * k):
        out = list(HEAD)
        for _ in range(rng.randint(5, 14)):
            nm = rng.choice(names)
            w = rng.randrange(16)
            v = rng.choice(["1", "2", "$100", "*", rng.choice(names), rng.choice(names) + "+1", "5"])
            if w < 2:
                out.append("%s\tequ\t%s" % (nm, v))
            elif w < 5:
                out.append("%s\tset\t%s" % (nm, v))
            elif w == 5:
                out.append("%s\teqm\t%s" % (nm, rng.choice(["1+1", "*", "*+1", rng.choice(names) + "+1"]) if rng.random() < .8 else "5"))
            elif w < 9:
                out.append("\tdc.w\t%s" % rng.choice(names))
            elif w == 9:
                out.append(rng.choice([".x", ".y"]) + "\tdc.w " + rng.choice([".x", ".y", "*"]))
            elif w == 10:
                out.append("%s\tsubroutine" % rng.choice(["", nm]))
            elif w == 11:
                out.append(rng.choice(["1$", "2$"]) + "\tdc.w " + rng.choice(["1$", "2$"]))
            elif w == 12:
                out.append("%s\tsetstr\t%s" % (rng.choice(["s1", "s2"]), rng.choice(["abc", "x y", "\"q\"", "a", rng.choice(names)])))
            elif w == 13:
                out.append(rng.choice(["\tdc s1", "t1\tsetsym s1", "\tdc.w t1", "\techo s1,s2", "s2\tset s1", "t1\tsetsym s2"]))
            elif w == 14:
                out.append(rng.choice(["\"dy\",num,\"e\"\tdc 1", "\"dy\",num\tequ 7", "\"d\",s1\tdc 2", "\tdc.w dy3e", "\tdc.w dy4", "num\tset num+1", "\"v\",num\tset num"]))
            else:
                out.append("%s\tdc.w *" % rng.choice(["lb%d" % rng.randint(0, 9999), nm]))
        pre = ["num\tset 3"] if rng.random() < .8 else []
        out = out[:2] + pre + out[2:]
        for nm in names:
            if any(nm in l for l in out) and rng.random() < .8 and not any(l.split("\t")[0] == nm for l in out):
                out.append("%s\tequ %d" % (nm, rng.randint(0, 99)))
        defs = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            defs.append(rng.choice(["-D", "-D", "-M"]) + rng.choice(["da", "db", rng.choice(names[:5])]) + rng.choice(["", "=5", "=$ff", "=da+1", "=0", "=*", "=1+2*3", "=zz"]))
        if defs:
            out.insert(3, "\tdc.w da")
            out += ["\tif 0", "da", "\tendif"]
        ps.append(prog(out, defs=defs, strict=rng.random() < .1))
    fixed = [
        ["a\tequ 5", "a\tequ 5", "\tdc a"], ["a\tequ 5", "a\tequ 6"], ["a\tequ 5", "a\tset 6", "\tdc a"], ["a\tset 5", "a\tequ 6", "\tdc a"], ["a\tset 5", "a\tequ 5", "\tdc a"], ["a\tdc 1", "a\tequ 5"], ["a\tequ *", "\tdc 1", "a\tequ *"], ["a\tequ f", "a\tequ f", "f\tequ 4", "\tdc a"],
        ["a\tset 1", "\tdc a", "a\tset 2", "\tdc a", "a\tset a+a", "\tdc a"], ["\tdc a", "a\tset 1", "\tdc a", "a\tset 2"], ["a\teqm *", "\tdc.w a", "\tdc.w a", "\tdc.w a,a"], ["a\teqm b+1", "b\tset 1", "\tdc a", "b\tset 5", "\tdc a"], ["a\teqm b", "b\teqm c", "c\tequ 4", "\tdc a"],
        ["a\teqm 5", "a\teqm 6", "\tdc a"], ["a\tequ 5", "a\teqm 6", "\tdc a"], ["a\teqm 6", "a\tequ 5", "\tdc a"], ["s\tsetstr hello", "\tdc s", "\techo s"], ["s\tsetstr hello", "t\tsetsym s", "\tdc.w t", "hello\tequ 7"], ["s\tsetstr a", "a\tsetstr b", "b\tequ 9", "t\tsetsym s", "\tdc.w t"], ["s\tset \"abc\"", "\tdc s", "q\tequ s", "\tdc q"],
        ["s\tequ \"abc\"", "\tdc s", "\tdc s+1", "\techo s,\"z\""], ["t\tsetsym nope"], ["x\tequ 4", "t\tsetsym x"], ["n\tset 1", "\"a\",n\tequ 5", "\tdc a1"], ["n\tset 1", "\"a\",n,\"_\",n+1\tdc.w *", "\tdc.w a1_2"], ["n\tset $1f", "\"a\",n\tequ 5", "\tdc a31"], ["n\tset -1", "\"a\",n\tequ 5"], ["s\tsetstr qq", "\"a\",s\tequ 5", "\tdc aqq"], ["\"a\",u\tequ 5", "u\tequ 1", "\tdc a1"],
        ["\"a\",\"b\"\tequ 5", "\tdc ab"], ["\"a\",1\tset 5", "\"a\",2\tset 6", "\tdc a1,a2"], ["\"a\",1\teqm *", "\tdc.w a1"], ["\"a\",1\tdc 4", "\tdc.w a1"], ["\"a\",1,2,3\tequ 4", "\tdc.w a123"], ["q,1\tequ 4", "\tdc.w q1"], ["q,n\tequ 4", "n\tset 2"],
        [".l\tdc 1", "\tbne .l", "\tsubroutine", ".l\tdc 2", "\tbne .l"], ["\tsubroutine", "\tdc.w .f", ".f", "\tsubroutine", "\tdc.w .f", ".f"], ["\tsubroutine", ".a\tequ 1", "\tsubroutine", "\tdc .a"], ["x\tsubroutine", ".a\tset 1", ".a\tset 2", "\tdc .a", "y\tsubroutine", ".a\tset 3", "\tdc .a"],
        ["l\tdc 1", "1$\tdc 2", "\tbne 1$", "m\tdc 3", "1$\tdc 4", "\tbne 1$"], ["l\tdc 1", "1$\tdc 2", "m\tdc 3", "\tbne 1$"], ["l\tdc.w 1$", "1$", "e\tequ 5", "\tdc.w 1$"], ["1$\tequ 5", "\tdc 1$", "n", "1$\tequ 6", "\tdc 1$"], ["l\tdc 1", "1$\tdc 1", "\tmac m", "1$\tdc.w 1$", "\tendm", "\tm", "\tdc.w 1$"], ["foo$\tequ 5", "\tdc foo$", "l", "foo$\tequ 6", "\tdc foo$"],
        ["..\tequ 5"] if False else ["a..b\tequ 5", "\tdc a..b"], ["Aa\tequ 1", "aA\tequ 2", "AA\tequ 3", "aa\tequ 4", "\tdc Aa,aA,AA,aa"], ["x\tset 1", "\tif x=1", "x\tset 2", "\tendif", "\tdc x"],
        ["p" * 60 + "\tequ 1", "p" * 61 + "\tequ 2", "\tdc " + "p" * 60 + "," + "p" * 61], ["p" * 200 + "a\tequ 1", "p" * 200 + "b\tequ 2", "\tdc " + "p" * 200 + "a," + "p" * 200 + "b"],
        ["a = 5", "\tdc a", "b=6" if False else "b = 6", "\tdc b"], ["a .equ 5", "b .set 6", "\tdc a,b"], ["a SET 5", "a EQM 6", "\tdc a"], ["a\tequ", "\tdc a"], ["a\tset", "\tdc a"], ["a\teqm", "\tdc a"], ["s\tsetstr", "\tdc s"], ["a\tequ 1,2", "\tdc a"], ["a\tset (5)", "\tdc a"], ["a\tset #5", "\tdc a"], ["a\tset <$1234", "\tdc a"],
        ["s\tsetstr abc", "s\tset 5", "\tdc s"], ["s\tset 5", "s\tsetstr abc", "\tdc s"], ["s\tset \"abc\"", "s\tset 5", "\tdc s", "\techo s"], ["a\tset .x", ".x\tequ 5", "\tdc a"], ["a:\tequ 5", "b:\tset 6", "\tdc a,b"], ["^a\tequ 5", " ^b\tequ 5", "\tdc a"],
    ]
    for t in fixed:
        ps.append(prog(HEAD + t))
        ps.append(prog(HEAD + t + ["\tdc.w zlate", "zlate\tdc 1"], strict=rng.random() < .3))
    for defs, t in [(["-Da=5"], ["\tdc a"]), (["-Da"], ["\tdc a"]), (["-Da=5", "-Db=a+1"], ["\tdc a,b"]), (["-Ma=*"], ["\tdc.w a", "\tdc.w a"]), (["-Ma=b+1"], ["b\tset 1", "\tdc a", "b\tset 2", "\tdc a"]), (["-Da=5"], ["a\tset 6", "\tdc a"]), (["-Da=5"], ["a\tequ 6", "\tdc a"]), (["-Da=5"], ["a\tequ 5", "\tdc a"]), (["-Da=\"str\""], ["\tdc a", "\techo a"]),
                    (["-Da=5", "-Da=6"], ["\tdc a"]), (["-Da=5", "-Ma=6"], ["\tdc a"]), (["-Da=$ff"], ["\tifconst a", "\tdc a", "\tendif"]), (["-Da=-1"], ["\tdc.w a"]), (["-Da=zz"], ["\tdc a", "zz\tequ 4"]), (["-DA=5"], ["\tdc A", "a\tequ 1", "\tdc a"]), (["-Da=1+2*3"], ["\tdc a"]), (["-Da.b=5"], ["\tdc a.b"])]:
        ps.append(prog(HEAD + t, defs=defs))
        ps.append(prog(HEAD + t + ["\tdc.w zlate", "zlate"], defs=defs))
    for n in (30, 150) if k == 1 else (30, 150, 700):     # many symbols: long hash chains
        ns = list(range(n))
        rng.shuffle(ns)
        ps.append(prog(HEAD + ["y%dz\tequ %d" % (i, i) for i in ns] + ["\tdc.w " + ",".join("y%dz" % i for i in rng.sample(ns, 20))]))
    for i in range(60 * k):
        ps.append(prog(source(rng, rng.randint(4, 12), set=6, eqm=3, local=3, dollar=3, sub=3)))
    return ps


# ---------------------------------------------------------------- C17
def gen_C17(rng, k):
    ps = []
    for i in range(150 * k):
        s = source(rng, rng.randint(4, 14), list=4 if i % 2 else 0, echo=2, undef=.02 if i % 5 == 0 else 0, err=1 if i % 4 == 0 else 0, macro=2, repeat=2)
        if rng.random() < .4:
            s = [l + rng.choice(["", "", " ; comment", "\t;c", ";x;y"]) for l in s]
        ps.append(prog(s, last=rng.random() < .5, errfmt=rng.choice([0, 0, 1, 2]), strict=rng.random() < .1))
    lines = ["\tdc 1", "\tdc 1,2", "\tdc 1,2,3", "\tdc 1,2,3,4", "\tdc 1,2,3,4,5", "\tdc \"abcdefghijklmnop\"", "\tds 3", "\tds 5,1", "\tds 0", "lab", "lab2:", "lab3 ; c", "; whole line", "", "   ", "\t; c", "eq\tequ 5", "eq2 = 6", "st\tset $12345678", "em\teqm *+1", "\torg $2000", "\torg $2000,5", "\trorg $f000", "\trend", "\tseg q", "\tseg.u uu",
             "\talign 16", "\thex 010203040506", "\tlda #5", "\tsta $1234,x", "\tlda.w 5", "\tbne *", "\techo \"hi\",5", "\tinclude \"i.h\"", "\tincbin \"d.bin\"", "\tmm 1,2", "\tif 0\n\tdc 1\nlq\tdc 2\n\telse\n\tdc 3\n\tendif", "\trepeat 2\n\tdc 1\n\trepend", "\tlist off\n\tdc 1\n\tlist on", "\tlist off\n\tmm 1,2\n\tinclude \"i.h\"\n\tlist on", "\tlist localoff\n\tdc 1",
             "\tlist localoff\n\tinclude \"i.h\"\n\tlist localon", "\tdc 256", "\tfrob", "\tdc undefd", "\tsubroutine", ".loc\tdc.w .loc", "1$\tdc.w 1$", "\tdc.w fw", "\tmac nn\n\tdc 1\n\tendm", "\tend", "\terr", "verylonglabelthatgoesonandonandon\tdc 1", "\tDC.B 1,2", "\tdc   1  ,  2   ; many   blanks", "x\tdc\t1\t;tab\tcomment", "\tprocessor 6502", "/* c */\tdc 1", "\tdc 1 /* c */", "/* a\nb\n*/\tdc 5",
             "\tdc ' ", "\tdc \"a  b\"", "\tsetsym", "s\tsetstr abc", "\tdv em2 1,2", "\tds 1", "\tlist on", "\tmexit", "\tds.l 70,1", "\tincdir \"x\"", "\ttrace off", "\tinclude \"l.h\"", "\tinclude \"e.h\""]
    for _ in range(270 * k):
        out = list(HEAD)
        if rng.random() < .5:
            out += ["\tmac mm", "\tdc {1} ; arg", ".l\tdc.w .l,{2}", rng.choice(["\tlist off", "\tdc 4", "\tlist localoff", "\tif {1}\n\tdc 7\n\tendif"]), "\tdc 6", "\tendm"]
        for l in rng.sample(lines, rng.randint(3, 12)):
            out += l.split("\n")
        out += ["fw\tequ 5", "em2\teqm ..+1"]
        ps.append(Prog({"m.asm": "\n".join(out) + rng.choice(["\n", ""]), "i.h": "ih\tdc 9,9\n; c\n", "l.h": "\tlist off\n\tdc 1\n", "e.h": "\tdc 3\n\tend\n\tdc 4\n"}, BIN, last=rng.random() < .5, fmt=rng.choice([1, 2, 3]), errfmt=rng.choice([0, 0, 1, 2]), maxp=rng.choice([10, 10, 10, 1, 2])))
    return ps


# ---------------------------------------------------------------- C18
def gen_C18(rng, k):
    ps = []
    for i in range(200 * k):
        s = source(rng, rng.randint(4, 14), undef=.03 if i % 3 == 0 else 0, set=3, eqm=2, local=2, dollar=2, macro=2, err=1 if i % 7 == 0 else 0)
        extra = []
        for _ in range(rng.randint(0, 4)):
            extra.append(rng.choice(["s%d\tsetstr some text" % rng.randint(0, 9), "t%d\tset \"str\"" % rng.randint(0, 9), "big%d\tequ $%x" % (rng.randint(0, 9), rng.choice([0xffff, 0x10000, 0x123456789, 0xffffffff])), "neg%d\tequ -%d" % (rng.randint(0, 9), rng.choice([1, 5, 70000])), "dup%d\tset 5" % rng.randint(0, 2), "Dup%d\tset 5" % rng.randint(0, 2), "\tifconst asked\n\tendif", "\tdc.w usedonly&255" if i % 3 == 0 else "\tdc 1", "e%d\teqm *+1" % rng.randint(0, 9), "u%d\tequ u%d" % (rng.randint(0, 4), rng.randint(5, 9)) if i % 3 == 0 else "\tdc 2"]))
        ps.append(prog(s + sum((e.split("\n") for e in extra), []), sort=rng.choice([0, 0, 1, 2]), maxp=rng.choice([10, 10, 10, 1, 2]), strict=rng.random() < .05, defs=rng.choice([[], [], ["-Dcmd=5"], ["-Mcmd=*"]])))
    for n in (0, 1, 2, 3, 20, 120) if k == 1 else (0, 1, 2, 3, 20, 120, 500):
        for srt in (0, 1, 2):
            ns = [rng.choice(["a", "B", "c_", "Zz", "_q", "m"]) + "%d" % j for j in range(n)]
            rng.shuffle(ns)
            ps.append(prog(["\torg 5"] + ["%s\t%s %s" % (x, rng.choice(["equ", "set"]), rng.choice([str(rng.randint(0, 300)), "$%x" % rng.randrange(1 << 34), "-%d" % rng.randint(1, 9), "5"])) for x in ns], sort=srt))
    for t in (["\tdc undefd"], ["a\tequ b", "b\tequ c"], ["a\tequ 5", "\tdc 256"], ["a\tequ 5", "\terr"], ["a\tequ 5", "/* open"], ["a\tequ 5", "\tmac open"], ["a\tequ 5", "\tfrob"], ["a\tset \"x;y\"", "\tdc a"], ["\tifconst only_asked", "\tendif"], ["l\tdc.w l", "m\tdc 1"], ["\tdc.w l", "l"], ["l", "m\tequ l", "n\tequ m+0"],
              ["\tif 0", "skipped\tequ 5", "\tendif"], ["a" * 30 + "\tequ 4", "a" * 24 + "\tequ 5", "a" * 23 + "\tequ 6", "a" * 25 + "\tequ 7"], ["x\tset 1", "x\tset 2"], ["x\teqm 1+1", "\tdc x"], ["x\teqm 1+1"], ["s\tsetstr", "\tdc 1"], ["c\tequ $7fffffffffffffff", "d\tequ -1", "e\tequ $8000000000000000"]):
        for srt in (0, 1, 2):
            ps.append(prog(["\tprocessor 6502", "\torg $10"] + t, sort=srt))
    return ps


# ---------------------------------------------------------------- C19
def gen_C19(rng, k):
    """Lines whose writing varies; the specification says what each writing means."""
    ps = []
    base = [("", "lda", "#5"), ("", "sta", "$80,x"), ("", "dc.b", "1,2,3"), ("", "dc", "\"a b\""), ("lb", "nop", ""), ("lc", "dc.w", "lb"), ("", "lda", "(5),y"), ("kk", "equ", "5"), ("", "ds", "2"), ("ls", "set", "3"), ("", "echo", "\"x y\",5"), ("", "dc", "' ,5"), ("", "dc", "\"; no comment\""), ("", "if", "1"), ("", "endif", ""), ("", "dc.w", "(1+2)*3"), ("", "lda.w", "5"), ("", "dc", "';"), ("", "dc", "'\""), ("", "dc", "'', '"), ("", "hex", "01 02"), ("", "bne", "*"), ("", "mm", "1,\"a b\""), ("", "jmp", "(lb)"), ("", "dc.w", "1 + 2"), ("", "lda", "# 5"), ("", "sta", "5 , x"), ("", "dc", "\"it's\",1")]

    def case(s):
        return "".join(c.upper() if rng.random() < .5 else c for c in s)

    def ws(least=1):
        n = rng.choice([1, 1, 1, 2, 3, 9])
        return "".join(rng.choice(" \t") for _ in range(max(n, least)))

    def write(lab, op, arg, style):
        r = rng.random
        o = op
        if r() < .5:
            o = case(o)
        if op not in ("mm",) and r() < .25:
            o = rng.choice([".", "#"]) + o
        l = lab
        if lab and r() < .5:
            l = rng.choice([lab + ":", " ^" + lab, lab + ":"]) if op not in ("equ", "set") else rng.choice([lab, lab + ":"])
            if l.startswith(" ^") and r() < .5:
                l = "\t^" + lab
        s = l + ws() + o
        if arg:
            s += ws() + arg
        k_ = rng.randrange(7)
        if k_ == 1:
            s += rng.choice([";", " ;", "\t; "]) + rng.choice(["comment", "\"", "'", "/ *", "(((", "", "lda #5", "{1}", ";;"])
        elif k_ == 2:
            s += " /* " + rng.choice(["c", "\"", "'", ";", "lda", "1,2"]) + " */"
        elif k_ == 3:
            i = s.find(o)
            s = s[:i] + "/* x */" + ws() + s[i:]
        elif k_ == 4:
            s += ws()
        elif k_ == 5 and arg:
            i = s.rfind(arg)
            s = s[:i] + "/**/" + s[i:]
        return s
    for i in range(360 * k):
        out = ["\tprocessor 6502", "\torg $1000", "\tmac mm", "\tdc {1},{2}", "\tendm"]
        n = rng.randint(3, 12)
        used = set()
        for j in range(n):
            lab, op, arg = rng.choice(base)
            if lab in used and lab:
                lab, op, arg = "", "dc", "7"
            used.add(lab)
            out.append(write(lab, op, arg, 0))
            if op == "if":
                out.append("\tdc 9")
                out.append(write("", "endif", "", 0))
            if op == "endif":
                out.pop()
            if rng.random() < .2:
                out += rng.choice([[""], ["; only"], ["\t"], ["/* one", "two lda #6", "three */"], ["/* a */ dc 3"], [" /* open", "*/\tdc 4"], ["\tdc 5 /* open", " lda (((", "*/ "], ["/* x */"], ["/* ; */\tdc 6"], ["; /* not open"], ["\tdc 1 ; */ no"], ["/* /* */\tdc 2"], ["/*/ dc 3 */"], ["/**/\tdc 1"], ["\tdc 1 /* a */ ; b"], ["/* a", "; b */", "\tdc 2"]])
        if "lb" not in used:
            out.append("lb\tnop")
        eol = rng.choice(["\n", "\n", "\r\n"])
        ps.append(prog(out, eol=eol, last_nl=rng.random() < .8, strict=rng.random() < .1))
    lines = ["lab dc 1", "lab:dc 1", "lab: dc 1", " lab dc 1", " ^lab dc 1", "^lab dc 1", "lab\tdc\t1", "lab dc.b 1", "lab DC.B 1", "lab .dc.b 1", "lab #dc.b 1", "lab ..dc 1", "\tdc\t1\t,\t2", "\tdc 1 ,2", "\tdc 1, 2", " dc 1;2", " dc 1 ;2", " dc \";\"", " dc ';", " dc \"a\" ;\"b\"", "\tdc \"a\tb\"", " dc '\t", " dc ' ", " dc \" \"", " dc \"'\",1", " dc '\",1",
             "lab", "lab:", "lab ; c", "lab;c", "lab:;c", " ; c", ";", "lab = 5", "lab= 5", "lab =5", "lab=5", "lab equ 5", "lab: equ 5", "lab .equ 5", "lab EQU 5", " lda #5", " LDA #5", " Lda #5", " lda # 5", " lda 5 ,x", " lda 5, x", " lda 5,X", " lda (5) ,y", " lda ( 5 ),y", " lda ( 5 , x )", " lda.W 5", " LDA.w 5", " lda .w 5", "/* c */ dc 1", "lab /* c */ dc 1", "lab dc /* c */ 1", "lab dc 1 /* c */", "/*c*/lab dc 1", "lab/*c*/dc 1", " dc 1/*c*/,2", " dc /*", "*/ dc 1",
             " dc 1 */", "/* c */ /* d */ dc 1", "/* c */ dc 1 /* d */", " dc \"/* x */\"", " dc '/,'*", " /* ; */ dc 1", " ; /* x", " dc 1 ; x */", "\fdc 1", "lab\r", " dc 1\r", " dc \"a\"\r", ";c\r", "\r", "lab:\r", " dc 1 ;c\r", "\t\t\tdc\t\t\t1", " dc  1  +  2 ", " dc 1+ 2", " dc (1 )", " dc [ 1 ]", " nop ", " nop ;", " nop; c", "x nop", "x: nop", "x:nop", "x :nop", " .nop", " #nop", " NOP", " dc {1}", " dc 1 {", "1abc nop", "a-b nop", "a:b nop", "a,b nop", " if 1;c", " endif;c", " dc -1+2", " dc - 1", " dc ! 1", " dc < 5", " dc 5 < 6", " dc $ 5", " dc % 1", " lab:", "  lab: nop", "\tlab2:\tnop", " lab:nop", " lab: dc 1"]
    for l in lines:
        for rest in (["\tdc 7"], ["x1\tdc.w x1", "; */", "\tdc 8"] if "/*" in l and "*/" not in l else ["\tdc.w *"]):
            ps.append(prog(["\tprocessor 6502", "\torg $1000", l] + rest, eol=rng.choice(["\n", "\r\n"]) if "\r" not in l else "\n"))
    return ps


# ---------------------------------------------------------------- C20
def gen_C20(rng, k):
    ps = []
    argp = ["5", "0", "-1", "$1234", "$123456789", "\"text\"", "\"a b  c\"", "\"\"", "fw", "lat", "*", "kk", "[5]d", "[kk]d", "[-1]d", "[fw]d", "[$ffff]d", "s1", "'a", "\"x;y\"", "\"c,d\"", "[s1]d", "1+1", "(5)", "[[3]]d", "eqm1", "#5", "chksum", "[200]d+1", ".", "\"it's\""]
    for _ in range(300 * k):
        out = list(HEAD) + ["kk\tset 3", "s1\tsetstr hello", "eqm1\teqm *+1"]
        for _ in range(rng.randint(2, 9)):
            w = rng.randrange(10)
            if w < 5:
                out.append("%s\techo\t%s" % (rng.choice(["", "", "el%d" % rng.randint(0, 9999)]), rng.choice([",", ", ", " ,"]).join(rng.choice(argp) for _ in range(rng.choice([1, 1, 2, 3, 5])))))
            elif w == 5:
                out.append("\tdc.w fw,lat")
            elif w == 6:
                out += ["\trepeat 2", "\techo \"r\",kk", "kk\tset kk+1", "\trepend"]
            elif w == 7:
                out += ["\tif %s" % rng.choice(["0", "1", "fw", "kk"]), "\techo \"in\"", "\telse", "\techo \"out\"", "\tendif"]
            elif w == 8:
                out.append("\tme %s" % rng.choice(argp))
            else:
                out.append("\tdc %d" % rng.randint(0, 255))
        out += ["fw\tequ %d" % rng.choice([0, 5, 300]), "lat\tdc.w lat"]
        out[2:2] = ["\tmac me", "\techo \"m\",{1}", "\tendm"]
        ps.append(prog(out))
    for _ in range(60 * k):                               # the checksum so far
        out = ["\tprocessor 6502", "\torg $%x" % rng.choice([0, 0x1000])]
        for _ in range(rng.randint(2, 8)):
            out += rng.choice([["\tdc 255,255,255"], ["\tds 5,$ff"], ["\tds 7"], ["\torg *+5,$ff"], ["\tdc.w chksum"], ["\techo chksum"], ["cs\tset chksum", "\tdc.l cs"], ["\tlda #<chksum"], ["\tdc.w lat"], ["\tseg.u u", "\tds 5", "\tseg initial code segment"], ["\tincbin \"d.bin\""], ["\thex ffff"], ["\talign 16,3"], ["\trepeat 3", "\tdc <chksum", "\trepend"], ["\tds 0"], ["\torg *+3"], ["\tif chksum>500", "\tdc 1", "\tendif"], ["\tdc [chksum]d"], ["\tdc.l chksum+1"]])
        out = [l.replace("chksum", rng.choice(["...", "..."])) for l in out]
        ps.append(prog(out + ["lat\tdc.w lat"], bins=BIN, fmt=rng.choice([1, 2, 3])))
    # options that only report
    opts = [["-v0"], ["-v1"], ["-v2"], ["-v3"], ["-v4"], ["-d"], ["-d0"], ["-lo.lst"], ["-ss2.sym"], ["-T0"], ["-T1"], ["-E0"], ["-E1"], ["-E2"], ["-v4", "-d1"], ["-v3", "-T1", "-E1"]]
    for i in range(100 * k):
        s = source(rng, rng.randint(4, 10), echo=3, undef=.03 if i % 4 == 0 else 0, err=1 if i % 5 == 0 else 0)
        ps.append(prog(s, extra=rng.choice(opts), note="options"))
        ps.append(prog(s, symfile=False, sort=rng.choice([0, 1, 2]), errfmt=rng.choice([0, 1, 2]), last=rng.random() < .5))
    for n in (50, 400):                                   # more text than one buffer
        ps.append(prog(["\torg 5", "i\tset 0", "\trepeat %d" % n, "\techo \"line number with some text to fill the buffer\",[i]d", "i\tset i+1", "\trepend"]))
    ps.append(prog(["\torg 5", "\tdc.w lat"] + ["\techo \"%s\",%d" % ("y" * rng.randint(1, 90), i) for i in range(200)] + ["lat"]))
    return ps
