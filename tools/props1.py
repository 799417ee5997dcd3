"""Programs for the properties C01-C10.  gen_Cxx(rng, k): a list of programs, k scales their number."""
from gen import CPUS, ISA, Gen, Source, prog
from dasmlib import Prog

ZERO = {x: 0 for x in Source.KINDS}


def weights(**kw):
    w = dict(Source.KINDS)
    w.update(kw)
    return w


def source(rng, n, depth=2, undef=0.0, cpu="6502", **kw):
    return Source(rng, weights(**kw), cpu, undef).source(n, depth)


# ---------------------------------------------------------------- C01
def chain(rng, n, use="dc.w"):
    """n constants each defined by the next one, in an unfavourable order."""
    names = ["c%d" % i for i in range(n + 1)]
    out = ["\tprocessor 6502", "\torg $1000"]
    mid = []
    for i in range(n):
        mid.append("%s\tequ\t%s%s" % (names[i], names[i + 1], rng.choice(["", "+1", "-1", "*2", "&$fff"])))
    place = rng.randint(0, n)
    uses = ["\t%s\t%s" % (rng.choice(["dc.w", "dc.l", "lda", "ds", "dc.b"]) if use is None else use, rng.choice(names) + "&255") for _ in range(3)]
    body = mid[:place] + uses + mid[place:] + ["%s\tequ\t%d" % (names[n], rng.choice([0, 1, 5, 255, 256])), "\tdc.w *"]
    return out + body


# one line (or few) whose effect must not carry over from pass to pass, or must wait for a value
SENSITIVE = [
    ["\tseg data", "\torg $80", "v1\tds 2", "v2\tds 1"],
    ["\tseg.u ram", "\torg $80", "v1\tds 2", "v2\tds fwd-fwd+2"],
    ["\tseg code", "\tds 3"],
    ["\torg $1100,$ea"],
    ["\torg $1100,7", "\torg $1110"],
    ["\tlist off"],
    ["\tlist localoff", "\tdc 1"],
    ["\trorg $f000", "lr1\tdc.w lr1,*", "\trend", "lr2\tdc.w lr2"],
    ["\trorg $f000", "lr1\tdc.w lr1,*"],
    ["\tds 4,$55"],
    ["\tds 4"],
    ["\talign 16,$aa"],
    ["\tsubroutine", ".l\tdc.w .l,.m", ".m\tnop"],
    ["1$\tdc.w 1$"],
    ["x1\tdc.w 1$", "1$\tdc.w 1$", "x2\tdc.w 1$", "1$\tdc.w 1$"],
    ["s1\tset s1x+1", "s1x\tset s1&15", "\tdc s1"],
    ["e1\teqm *+fwd", "\tdc.w e1", "\tdc.w e1"],
    ["\techo fwd"],
    ["\tprocessor 6502"],
    ["\tif fwd>10", "\tdc 1", "\telse", "\tdc 2,2", "\tendif"],
    ["\tif fwd<10", "\tdc 1,2", "\tendif"],
    ["\tifconst fwd", "\tdc 1", "\telse", "\tdc 2,2", "\tendif"],
    ["\tifnconst fwd", "\tdc 1", "\telse", "\tdc 2,2", "\tendif"],
    ["\tifconst tail", "\tdc 1", "\tendif"],
    ["\trepeat fwd&3", "\tdc 9", "\trepend"],
    ["\trepeat tail&3", "\tdc 9", "\trepend"],
    ["\tds tail&7"],
    ["\talign (tail&7)+1"],
    ["\torg $1400+(tail&7)"],
    ["\torg fwdorg"],
    ["\trorg fwdorg", "rl\tdc.w rl", "\trend"],
    ["\tlda tail", "\tsta fwd", "\tlda fwd,x", "\tjmp tail"],
    ["\tbne tail"],
    ["\tlda #<tail", "\tlda #>tail"],
    ["\tdc.b <tail,>tail", "\tdc.w tail", "\tdc.l tail"],
    ["\tdv.w em 1,2,tail", "em\teqm ..+1"],
    ["\tdc tail-here", "here"],
    ["\tinclude \"i.h\"", "\tdc.w inc_lab"],
    ["\tincbin \"d.bin\"", "ab\tdc.w ab"],
    ["\tincbin \"d.bin\",fwd&3", "ab\tdc.w ab"],
    ["\tincbin \"d.bin\",tail&3", "ab\tdc.w ab"],
    ["\tmac mm", ".q\tdc.w .q,{1}", "\tendm", "\tmm tail", "\tmm fwd"],
    ["\thex 0102"],
    ["\tdc.w ."],
    ["str\tsetstr abc", "\tdc str"],
    ["num\tset 5", "\"lab\",num,\"x\"\tdc.w tail", "\tdc.w lab5x"],
    ["\tds.w (tail>>8)&3,tail"],
    ["q1\tequ q2", "q2\tequ q3", "q3\tequ tail", "\tdc.w q1"],
    ["\tseg.u z1", "\torg fwd", "zz\tds 2", "\tseg code", "\tlda zz"],
    ["\tseg.u z2", "\torg tail&255", "zy\tds 2", "\tseg code", "\tsta zy"],
    ["\tif tail&1", "\tnop", "\tendif"],
    ["\tlda later_zp", "\tsta later_zp,x"],
    ["\tdc.b fill", "fill\tequ 4"],
    ["lx\tequ *", "\tdc.w lx"],
    ["lx\t= tail", "\tdc.w lx-1"],
    ["cnt\tset 0", "\trepeat 3", "\tdc cnt,tail&255", "cnt\tset cnt+1", "\trepend"],
]
TAIL = ["tail\tdc.w tail", "fwd\tequ %d", "fwdorg\tequ $1300", "later_zp\tequ $80"]


def sensitive(rng, parts, tail=None):
    out = ["\tprocessor 6502"] + rng.choice([["\torg $1000"], ["\tseg code", "\torg $1000"], ["\torg $1000", "\tseg code", "\torg $1040"]])
    used = []
    for p in parts:
        t = "\n".join(p)
        if any(d and d in t for d in used):
            continue
        out += p
        used.append(p[0].split("\t")[0] if p[0][0] != "\t" else "")
        if rng.random() < .5:
            out.append("\tdc.w *")
    t = list(TAIL)
    t[1] = t[1] % rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 255, 256])
    if rng.random() < .3:
        rng.shuffle(t)
    if rng.random() < .2:
        t = ["\tseg code"] + t
    return out + t


AUX = {"i.h": "inc_lab\tdc.w inc_lab,tail\n"}
BIN = {"d.bin": bytes(range(7))}


# one place where a value is needed (X), the only reason for another pass
USES = {"6502": [
    ["\tdc X"], ["\tdc.w X"], ["\tdc.l X"], ["\tdc.s X"], ["\tdc 1,X"], ["\tdc X,1"], ["\tdv e X", "e\teqm ..+1"], ["e\teqm ..+X", "\tdv.w e 1,2"], ["e\teqm X", "\tdc.w e"], ["e\teqm X"],
    ["\tds X", "l\tdc.w l"], ["\tds 3,X"], ["\tds.w 3,X"], ["\tds.l X,7"], ["\tds.w X"], ["\talign X", "l\tdc.w l"], ["\talign 16,X", "\tdc 1"], ["\tdc 1", "\talign 4,X"], ["\torg $1100+X", "\tdc 1"], ["\torg $1010,X", "\tdc 1", "\torg $1020", "\tdc 2"],
    ["\trorg X", "l\tdc.w l"], ["\trorg X"], ["\tif X", "\tdc 1", "\telse", "\tdc 2", "\tendif"], ["\tif X>9", "\tdc 1", "\tendif"], ["\tif 0", "\tif X", "\tdc 1", "\tendif", "\tendif"], ["\tif X", "\tdc 1", "\teif", "\tdc 3"],
    ["\trepeat X&3", "\tdc 9", "\trepend"], ["\trepeat 2", "\tdc X", "\trepend"], ["\techo X"], ["\techo \"v\",X"], ["v\tset X"], ["v\tset X", "\tdc.w v"], ["v\t= X", "\tdc.w v"], ["v\tequ X", "\tdc.w v"], ["v\tequ X"],
    ["\"q\",X\tdc 1"], ["\"q\",X\tequ 4"], ["\tlda X"], ["\tlda X,x"], ["\tlda X,y"], ["\tldx X,y"], ["\tlda (X),y"], ["\tlda (X,x)"], ["\tlda #X"], ["\tlda #<X"], ["\tlda #>X"], ["\tjmp X"], ["\tjmp (X)"], ["\tjsr X"],
    ["\tlda.w X"], ["\tlda.z X"], ["\tlda.a X,x"], ["\tlda.b X"], ["\tinc X"], ["\tbit X"], ["\tbne X"], ["\tbne *+X"], ["\tmac m", "\tdc {1}", "\tendm", "\tm X"], ["\tmac m", "\tds 2,{1}", "\tendm", "\tm X"], ["\tmac m", "\tlda X", "\tendm", "\tm"],
    ["\tseg.u b", "\torg X", "v\tds 1", "\tseg a", "\torg $1100", "\tlda v"], ["\tseg.u b", "\torg $80", "v\tds X", "w\tds 1", "\tseg a", "\torg $1100", "\tlda w"], ["\tseg.u b", "\torg $80", "v\tds 2,X"], ["\tsubroutine X", "\tdc 1"], ["\tdc -X"], ["\tdc X?7"], ["\tdc.w X&&1"], ["\tdc 0&&X"], ["\tdc 1||X"], ["\tdc X||1"],
    ["\tdc.w [X]"], ["\tdc.w <X,>X"], ["\tdc.w X*X"], ["\tdc.w X==X"], ["\tifconst X", "\tdc 1", "\tendif"], ["\tifnconst X", "\tdc 1", "\tendif"], ["\tlist X"], ["\terr"], ["\tprocessor 6502"], ["\thex 0X"], ["\tincbin \"d.bin\",X"],
    ["\torg $1010,X"], ["\tds 0,X"], ["\tds X,X"], ["\talign X,X"], ["\tlda X", "\tds 200", "\tbne X"], ["\tdc.s \"a\",X"], ["\tbyte X"], ["\tword X"], ["\tlong X"], ["\t.byte X"], ["*\t= $1100+X", "\tdc 1"], ["*\tequ $1100+X", "l\tdc.w l"]],
  "68705": [["\tbrset X,5,*"], ["\tbrset 1,X,*"], ["\tbrset 1,5,X"], ["\tbset X,5"], ["\tbset 1,X"], ["\tbra X"], ["\tlda X,x"]],
  "6811": [["\tbset X,3"], ["\tbset 3,X"], ["\tbset X,x,3"], ["\tbrset X,3,*"], ["\tbrset 3,X,*"], ["\tbrset 3,3,X"], ["\tbrset 3,x,X,*"], ["\tldd #X"], ["\tldaa X"], ["\tldaa X,x"], ["\tldaa X,y"]],
  "6803": [["\tldd X"], ["\tldd #X"], ["\tbsr X"], ["\tstaa X,x"]],
  "68908": [["\tlda X"], ["\tlda X,x"], ["\tlda X,sp"]],
  "f8": [["\tli X"], ["\tlis X"], ["\tlisu X"], ["\tlisl X"], ["\tlr a,X"], ["\tlr X,a"], ["\tas X"], ["\tds X"], ["\tdci X"], ["\tjmp X"], ["\tpi X"], ["\tbr X"], ["\tbnz X"], ["\tbt X,*"], ["\tbt 1,X"], ["\tbf X,*"], ["\tbf 1,X"], ["\tins X"], ["\toutp X"], ["\tin X"], ["\tout X"], ["\tsl X"], ["\tsr X"], ["\tcm", "\tni X"], ["\tres 3,X"], ["\tres X"]],
}
# how X comes to be known only later
LATER = [
    ("x1", ["x1\tequ 3"]), ("x1+1", ["x1\tequ 2"]), ("x1", ["x1\tequ x2", "x2\tequ 3"]), ("x1&3", ["x1"]), ("x1-$1000", ["x1\tdc.w 7"]), ("x1", ["x1\tset 3"]), ("x1", ["x1\t= 4"]), ("x1", ["\tsubroutine", "x1\tequ 2"]),
    ("x1", ["\tif 1", "x1\tequ 2", "\tendif"]), ("x1", ["\tmac d", "x1\tequ {1}", "\tendm", "\td 3"]), ("x1", ["\tseg.u late", "\torg 2", "x1\tds 1"]), ("x1", ["\trorg 3", "x1\tdc 1", "\trend"]), ("x1", ["x1\tequ $85"]), ("x1", ["x1\tequ $102"]),
    ("x1", ["x1\teqm 3"]), ("x1-x2+3", ["x1", "x2\tequ x1"]), (".x1", [".x1\tequ 3"]), ("1$&3", ["1$\tdc 1"]), ("x1", ["\"x\",1\tequ 3"]),
]


def isolated(rng, k):
    ps = []
    for cpu, uses in USES.items():
        for n, u in enumerate(uses):
            for x, d in LATER if k > 1 else [LATER[0]] + rng.sample(LATER[1:], 4):
                out = ["\tprocessor " + cpu, "\torg %s" % rng.choice(["$1000", "$1000", "$1000", "$10"])] + [l.replace("X", x) for l in u] + rng.choice([[], [], ["\tdc 5"]]) + d
                ps.append(prog(out, fmt=rng.choice([1, 1, 2, 3]), bins=BIN))
    return ps


def gen_C01(rng, k):
    ps = isolated(rng, k)
    for s in SENSITIVE:                                  # each alone, twice
        for _ in range(2):
            out = sensitive(rng, [s])
            ps.append(Prog({"m.asm": "\n".join(out) + "\n", **AUX}, BIN, fmt=rng.choice([1, 1, 2, 3])))
    for _ in range(330 * k):
        parts = rng.sample(SENSITIVE, rng.randint(2, 5))
        out = sensitive(rng, parts)
        ps.append(Prog({"m.asm": "\n".join(out) + "\n", **AUX}, BIN, fmt=rng.choice([1, 1, 2, 3]),
                       defs=rng.choice([[], [], ["-Dfwd2=3"]])))
    for i in range(120 * k):
        ps.append(prog(source(rng, rng.randint(4, 16), undef=.03 if i % 4 == 0 else 0, iffwd=2, equfwd=4, dcfwd=5, seg=2)))
    for n in range(32 * k):                              # values that move by a power of two between passes
        d = 1 << (n % 32 + 1) if n % 32 < 22 else rng.choice([1, 3]) << (8 if n % 32 < 26 else 16)
        a = rng.choice([0, 1, 5, 0x80, 0xff, 0x100, 0x1000, 0x7fff, 0x8000, 0xffff])
        if rng.random() < .3:
            a, d = a + d, -d
        how = rng.choice([["\tifconst x", "\torg %d" % (a + d), "\telse", "\torg %d" % a, "\tendif"], ["\torg %d+[%d*x]" % (a, d)],
                          ["\torg 16", "\tifconst x", "\trorg %d" % (a + d), "\telse", "\trorg %d" % a, "\tendif"],
                          ["\tseg.u v", "\tifconst x", "\torg %d" % (a + d), "\telse", "\torg %d" % a, "\tendif", "l0\tds 1", "\tseg code", "\torg 8", "\tdc.l l0"]])
        kind = rng.choice(["\tdc.l l", "\tdc.w l", "\tlda l", "e equ l+1\n\tdc.l e", "\tdc.l l-m", "\tif l > %d\n\tdc 1\n\telse\n\tdc 2\n\tendif" % (a + 2)])
        ps.append(prog(["\tprocessor 6502"] + how + kind.split("\n") + ["l\tdc 1", "m\tdc.l m", "x\tequ 1"], fmt=rng.choice([1, 2, 3])))
    for d in (1, 2, 3, 5, 7, 8, 9, 10):
        ps.append(prog(chain(rng, d, None)))
    for t in UNSTABLE:
        ps.append(prog(t))
    return ps


UNSTABLE = [
    ["\torg 0", "\tif b=1", "a\tequ 2", "\telse", "a\tequ 1", "\tendif", "b\tequ a", "\tdc a"],
    ["\torg $10", "\tifnconst q", "\tdc 1", "q\tequ 5", "\tendif", "\tdc 2"],
    ["\tprocessor 6502", "\torg $fd", "\tlda q", "\tnop", "q\tnop"],
    ["\tprocessor 6502", "\torg $fc", "\tlda q", "\tnop", "q\tnop"],
    ["\tprocessor 6502", "\torg $fe", "\tlda q", "q\tnop"],
    ["\torg 5", "a\tset b", "b\tset a+1", "\tdc a"],
    ["\torg 5", "a\tequ b", "b\tequ a"],
    ["\torg 5", "\tdc nowhere"],
    ["\torg nowhere", "\tdc 5"],
    ["\torg 5", "\tds nowhere", "\tdc 1"],
    ["\torg 5", "\tif nowhere", "\tdc 1", "\telse", "\tdc 2", "\tendif"],
    ["\torg 5", "\tif nowhere && 0", "\tdc 1", "\telse", "\tdc 2", "\tendif"],
    ["\torg 5", "\tif nowhere || 1", "\tdc 1", "\telse", "\tdc 2", "\tendif"],
    ["\torg 5", "\tif 0 && nowhere", "\tdc 1", "\telse", "\tdc 2", "\tendif"],
    ["\torg 5", "\trepeat nowhere", "\tdc 1", "\trepend"],
    ["\torg 5", "\talign nowhere", "\tdc 1"],
    ["\torg 5", "\techo nowhere", "\tdc 1"],
    ["\torg 5", "a\tequ nowhere", "\tdc 1"],
    ["\torg 5", "a\tset nowhere", "\tdc 1"],
    ["\torg 5", "a\teqm nowhere", "\tdc 1"],
    ["\torg 5", "a\teqm nowhere", "\tdc a"],
    ["\tprocessor 6502", "\torg 5", "\tlda nowhere"],
    ["\tprocessor 6502", "\torg 5", "\tlda #nowhere"],
    ["\tprocessor 6502", "\torg 5", "\tbne nowhere"],
    ["\tprocessor f8", "\torg 5", "\tbr nowhere"],
    ["\tprocessor f8", "\torg 5", "\tli nowhere"],
    ["\tprocessor f8", "\torg 5", "\tlr a,nowhere"],
    ["\tprocessor 68705", "\torg 5", "\tbrset nowhere,5,*"],
    ["\tprocessor 68705", "\torg 5", "\tbrset 1,nowhere,*"],
    ["\tprocessor 68705", "\torg 5", "\tbrset 1,5,nowhere"],
    ["\tprocessor 6811", "\torg 5", "\tbset 5,nowhere"],
    ["\torg 5", "\tdc.b l-k", "k\tds m", "l\tdc 1", "m\tequ n", "n\tequ 3"],
    ["\tprocessor 6502", "\torg $80", "\tlda l", "\tds n", "l\tnop", "n\tequ $7d"],
    ["\tprocessor 6502", "\torg $80", "\tlda l", "\tds n", "l\tnop", "n\tequ $7e"],
    ["\tprocessor 6502", "\torg $80", "\tlda l", "\tds n", "l\tnop", "n\tequ $7c"],
    ["\torg 0", "a\tequ *", "\tifconst late", "\tdc 1,2,3", "\tendif", "b\tdc.w b,a", "late"],
    ["\torg 0", "\tdc.w b", "\tif b>3", "\tdc 1,2", "\tendif", "b\tdc.w b"],
    ["\torg 0", "\tdc.w b", "\tif b>2", "\tdc 1,2", "\tendif", "b\tdc.w b"],
    ["\torg 0", "\tdc.w b", "\tif b<3", "\tdc 1,2", "\tendif", "b\tdc.w b"],
    ["\tseg a", "\tseg b", "\torg 5", "\tdc.w x", "\tseg a", "\torg 9", "x\tdc 1"],
    ["\tseg.u a", "\torg $80", "x\tds 1", "\tseg b", "\torg $10", "\tdc x", "\tseg.u a", "y\tds 1", "\tseg b", "\tdc y,x"],
]


# ---------------------------------------------------------------- C02
FAULTS6502 = [
    "\tfrobnicate", "\tfrob 5", "lab\tfrob.w 5", "\tlda (5", "\tlda 5)", "\tdc [5", "\tdc 5]", "\tdc 5 5", "\tdc 1/0", "\tdc 1%0", "\tlda @", "\tdc 5+",
    "\tdc *-", "\tdc undefined", "\tlda undefined", "\tlda #256", "\tlda #-256", "\tsta #5", "\tlda (5),x", "\tjmp #5", "\tinx 5", "\tlda", "\tlda.w (5,x)",
    "\tlda.b $100", "\tsta.w #5", "\tbne *+130", "\tbne *-127", "\tbne undefined", "\terr", "\terr 5", "\torg $10", "\torg undefined", "\tdc.b 256",
    "\tdc.b -129", "\tdc 256", "\tdc 1,2,256,300", "\tbyte $100", "\tdc.b \"a\",256", "\tds.b undefined", "\tds undefined,3", "\talign undefined", "\talign 0", "\trepeat undefined\n\tdc 1\n\trepend", "\trepeat -1\n\tdc 1\n\trepend",
    "eq1\tequ 5\neq1\tequ 6", "eq2\tequ undefined", "\tif undefined\n\tdc 1\n\tendif", "\tincbin \"none.bin\"", "\tinclude \"none.h\"", "\tprocessor 6303", "\tprocessor z80",
    "\tprocessor", "\tmac mm\n\tdc {2}\n\tendm\n\tmm 1", "\tmac rec\n\trec\n\tendm\n\trec", "\trepend", "\tendif", "\telse", "\tendm", "\tmexit", "\tmac open1\n\tdc 1",
    "/* not closed", "\tdc 5 */", "lb1\nlb1", "lb2\tdc 1\nlb2\tdc 1", "\tdv.b nosuch 1,2", "\tdv nosuch 5", "\tseg\n\tdc 5", "\thex 0g", "\thex 1", "\tdc \"abc", "\tdc 'a'",
    "ss\tsetsym nosuch", "se\tset undefined\n\tdc se", "st\teqm undefined+1\n\tdc st", "\techo undefined", "\tdc.b fwd_big\nfwd_big\tequ 300", "\tlda #fwd_b2\nfwd_b2\tequ 300",
    "\tbne far1\n\tds 200\nfar1", "\trend", "\tif 1\n\tdc 1", "\tdc (1+2)*(3", "\tdc ((1)", "\tdc 1,,2", "\tdc ,1", "\tlda #", "\tdc !", "\tdc 1?2", "\tdc <", "\tbne", "\tjsr (5,x)",
    "\tlsr.x 5", "\tdc 0x", "\tdc $", "\tdc %", "\tdc 09", "\tdc $g", "\tdc.q 5", "\tdc.w undefined-*", "\trorg undefined", "\tmac q\n\tmac r\n\tendm", "\tlist", "\tdc \"\"", "\tincdir", "\torg *-1",
    "\talign -0", "1bad\tdc 5", "a.b\tdc 5", "\tbrk 5", "\tlda 5,z", "\tldx 5,x", "\tlda (5),y,3", "\tsubroutine x\n.a\tequ 1\n.a\tequ 2", "\tdc.b l_far\n\torg $1500\nl_far", "\tdc.w ..", "\tdc 1<<", "\tdc ==1",
    "\trepeat 3\n\tdc 256\n\trepend", "\tds.w 2,undefined", "\tdc.s 300", "\tbit #5", "\tstx 5,x", "\tasl #1", "\tjmp 5,x", "\tjmp (5),y", "\tror (5)", "\teqm 5", "\tend x", "\tlda #$100+", "\tdc.b $100,$200",
]
FAULTSX = [("6803", "\tldaa #256"), ("6803", "\tbra *+200"), ("6803", "\tstaa #1"), ("68705", "\tbset 8,5"), ("68705", "\tbset 1,256"), ("68705", "\tbset 1"), ("68705", "\tbrset 1,5"),
           ("68705", "\tbrset 9,5,*"), ("68705", "\tbrset 1,5,*+200"), ("68705", "\tbclr 7"), ("6811", "\tbset 5"), ("6811", "\tbset 5,256"), ("6811", "\tbrset 5,1"), ("6811", "\tbrset 5,1,*+300"), ("6811", "\tldaa #256"),
           ("68908", "\tcbeq 5"), ("68908", "\tcbeq 5,*+300"), ("68908", "\tdbnz 5,*-300"), ("68908", "\tbset 8,5"), ("68908", "\tlda 256,sp,5"), ("6303", "\taim #1"), ("6303", "\taim 256,5"), ("6303", "\ttim 1,5,3"),
           ("f8", "\tlr a"), ("f8", "\tlr a,a"), ("f8", "\tlr a,15"), ("f8", "\tlr 15,a"), ("f8", "\tins 16"), ("f8", "\touts 16"), ("f8", "\tsl 2"), ("f8", "\tsr 3"), ("f8", "\tlis 16"), ("f8", "\tlisu 8"), ("f8", "\tlisl 8"),
           ("f8", "\tli 256"), ("f8", "\tpi 65536"), ("f8", "\tdci $10000"), ("f8", "\tbr *+200"), ("f8", "\tbr *-200"), ("f8", "\tbt 8,*"), ("f8", "\tbf 16,*"), ("f8", "\tbf 1"), ("f8", "\tas 15"), ("f8", "\tds 15"), ("f8", "\tnm 5"), ("f8", "\tli"), ("f8", "\tfrob"),
           ("f8", "\tlr a,undefined"), ("f8", "\tbr undefined"), ("f8", "\tli undefined"), ("f8", "\tli -1"), ("f8", "\tlis -1"), ("f8", "\tpi -1"), ("f8", "\tlr h,q"), ("f8", "\tlr (a),5"), ("f8", "\tai #5"), ("f8", "\tai 1,2")]
HARMLESS = ["\tdc.b 255", "\tdc.b -128", "\tlda #255", "\tlda #-1", "\tbne *+129", "\tbne *-126", "\tdc 1/1", "\torg *", "\tds 0", "\talign 1", "eq3\tequ 5\neq3\tequ 5", "\tif 0\n\tfrob\n\tendif", "\trepeat 0\n\tfrob\n\trepend",
            "\t; comment ( [", "\tif 0\n\tinclude \"none.h\"\n\tendif", "\tdc \"\",1", "\techo \"ok\"", "\tmac unused\n\tfrob\n\tendm", "\tlda fw\nfw\tequ 255", "/* x */ dc 1", "\tdc 5 ; 1/0",
            "\tif 0\n\terr\n\tendif", "\tifconst nn\n\terr\n\tendif", "\tif 1 || nn\n\tdc 1\n\tendif", "\tend\n\tfrob", "\trend", "\tsubroutine", "l5:", "\tincbin \"d.bin\"", "\tdc.w $ffff,-1", "\tseg.u u\n\torg 5\n\tds 1\n\tseg code"]


def gen_C02(rng, k):
    ps = []
    head = "\tprocessor %s\n\tseg code\n\torg $1000\n"

    def wrap(cpu, t, how, **kw):
        filler = lambda: rng.choice(["", "\tdc 1\n", "; c\n\n", "fl%d\tdc.w *\n" % rng.randint(1, 999), "\tdc fwref&1\n"])
        files = {}
        h = head % CPUS[cpu]
        if how == "plain":
            src = h + filler() + t + "\n" + filler() + filler()
        elif how == "incl":
            src = h + filler() + "\tinclude \"sub.h\"\n" + filler()
            files["sub.h"] = filler() + t + "\n" + filler()
        elif how == "incl2":
            src = h + "\tinclude \"sub.h\"\n" + filler()
            files["sub.h"] = filler() + "\tdc 1\n\tinclude \"sub2.h\"\n" + filler()
            files["sub2.h"] = filler() + filler() + t + "\n"
        elif how == "after":
            src = h + "\tinclude \"sub.h\"\n" + filler() + t + "\n" + filler()
            files["sub.h"] = "\tdc 1\n" * rng.randint(0, 4)
        elif how == "macro":
            src = h + filler() + "\tmac mz\n\tdc 1\n" + t + "\n\tdc 2\n\tendm\n" + filler() + "\tmz 1\n" + filler()
        elif how == "repeat":
            src = h + filler() + "\trepeat 2\n" + t + "\n\trepend\n" + filler()
        elif how == "if1":
            src = h + "\tif 1\n" + t + "\n\tendif\n" + filler()
        elif how == "if0":
            src = h + "\tif 0\n" + t + "\n\tendif\n" + filler()
        elif how == "else":
            src = h + "\tif 0\n\tdc 1\n\telse\n" + t + "\n\tendif\n" + filler()
        elif how == "fwd":
            src = h + "\tdc.w zend\n" + filler() + t + "\n" + filler() + "zend\n"
        elif how == "first":
            src = t + "\n" + h + filler()
        else:
            src = h + filler() + t                       # no newline at the end
        if "fwref" in src + "".join(files.values()):
            src += "\nfwref\tequ 5\n"
        files["m.asm"] = src
        kw.setdefault("errfmt", rng.choice([0, 0, 1, 2]))
        kw.setdefault("remove", rng.random() < .4)
        kw.setdefault("fmt", rng.choice([1, 1, 2, 3]))
        kw.setdefault("strict", rng.random() < .25)
        kw.setdefault("symfile", rng.random() < .7)
        return Prog(files, BIN, **kw)

    HOW = ["plain", "incl", "incl2", "after", "macro", "repeat", "if1", "if0", "else", "fwd", "first", "end"]

    def okin(t, how):
        if how in ("macro",) and "mac" in t:
            return False
        return not ("/*" in t and how in ("incl", "incl2"))
    faults = [("6502", t) for t in FAULTS6502] + FAULTSX
    for cpu, t in faults:
        ps.append(wrap(cpu, t, "plain"))
        hs = [h for h in HOW if okin(t, h)]
        for how in rng.sample(hs, 2 if k == 1 else len(hs)):
            ps.append(wrap(cpu, t, how))
    for t in HARMLESS:
        for how in rng.sample([h for h in HOW if okin(t, h)], 2 if k == 1 else 6):
            ps.append(wrap("6502", t, how))
    for _ in range(150 * k):                             # two faults, the order and number of reports count
        cpu = rng.choice(["6502", "6502", "f8", "68705", "6811"])
        pool = [t for c, t in faults if c == cpu]
        t = rng.choice(pool) + "\n" + rng.choice(pool)
        if t.count("mac") > 1 or t.count("/*") > 1:
            continue
        ps.append(wrap(cpu, t, rng.choice([h for h in HOW if okin(t, h)])))
    for _ in range(60 * k):
        ps.append(prog(source(rng, rng.randint(4, 12), undef=.05, err=2), errfmt=rng.choice([0, 1, 2]), remove=rng.random() < .5))
    for code in ("-Dq", "-Dq=5", "-Dq=(", "-Mq=(", "-Mq=1/0", "-Dq=1/0", "-Dq=nn", "-Mq=nn"):
        ps.append(Prog("\torg 5\n\tdc.w q\n", defs=[code], errfmt=rng.choice([0, 1, 2]), remove=rng.random() < .5))
    # many errors: more than one buffer of them
    for n in (40, 300):
        ps.append(prog(["\tprocessor 6502", "\torg $1000"] + ["\tlda #%d" % (256 + i) for i in range(n)]))
    ps.append(prog(["\tprocessor 6502", "\torg $1000", "i\tset 0", "\trepeat 150", "\tlda #256+i", "i\tset i+1", "\trepend"]))
    return ps


# ---------------------------------------------------------------- C03
def gen_C03(rng, k):
    ps = []
    for d in (1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12):
        for _ in range(2 * k):
            ps.append(prog(chain(rng, d, "dc.w"), maxp=rng.choice([10, 10, 1, 2, 3, d, d + 1, d + 2, max(1, d - 1), 20])))
            ps.append(prog(chain(rng, d, "dc.w"), maxp=rng.choice([1, 2, 3, d, d + 1, d + 2, 15]), allp=True))
    for d in (20, 40):
        ps.append(prog(chain(rng, d, "dc.w"), maxp=d + 2))
        ps.append(prog(chain(rng, d, "dc.w"), maxp=d - 1))
    for t in UNSTABLE:
        ps.append(prog(t, maxp=rng.choice([10, 10, 1, 2, 3]), allp=rng.random() < .4))
    rec = [
        ["\tmac r", "\tr", "\tendm", "\tr"], ["\tmac r", "\tdc 1", "\tr {1}", "\tendm", "\tr 5"],
        ["\tmac a", "\tdc 1", "\tb", "\tendm", "\tmac b", "\tdc 2", "\ta", "\tendm", "\ta"],
        ["\tmac r", "\tif {1}>0", "\tdc {1}", "\tr {1}-1", "\tendif", "\tendm", "\tr 5"],
        ["n\tset 31", "\tmac r", "n\tset n-1", "\tif n>0", "\tdc n", "\tr", "\tendif", "\tendm", "\tr"],
        ["n\tset 30", "\tmac r", "n\tset n-1", "\tif n>0", "\tdc n", "\tr", "\tendif", "\tendm", "\tr"],
        ["n\tset 29", "\tmac r", "n\tset n-1", "\tif n>0", "\tdc n", "\tr", "\tendif", "\tendm", "\tr"],
        ["n\tset 33", "\tmac r", "n\tset n-1", "\tif n>0", "\tdc n", "\tr", "\tendif", "\tendm", "\tr"],
        ["n\tset 200", "\tmac r", "n\tset n-1", "\tif n>0", "\tr", "\tendif", "\tendm", "\tr"],
        ["\tmac r", "\trepeat 2", "\tr", "\trepend", "\tendm", "\tr"],
    ]
    for t in rec:
        ps.append(prog(["\torg 0"] + t))
        ps.append(prog(["\torg 0"] + t + ["\tdc.w zz", "zz"]))
    # -m takes more than 64 kB
    big = [
        ["\tds 66559"], ["\tds 66560"], ["\tds 66561"], ["\tds 80000"], ["\trepeat 70", "\tds 1000", "\trepend"], ["\trepeat 66", "\tds.l 256", "\trepend"],
        ["\tdc 1", "\torg 66560", "\tdc 1"], ["\tdc 1", "\torg 66559", "\tdc 1"], ["\tdc 1", "\talign 66560", "\tdc 1"], ["\torg 900", "\tds 66560"], ["\torg 900", "\tds 66561"],
        ["\tds 600", "\tseg.u x", "\torg 0", "\tds 200000"], ["\tds 66000", "\tincbin \"k.bin\""], ["\tds 65960", "\tincbin \"k.bin\""], ["\tds 66000", "\thex 0102", "\trepeat 10", "\tdc \"%s\"" % ("x" * 60), "\trepend"],
    ]
    for t in big:
        for kb in rng.sample([0, 65, 66], 1 if k == 1 else 3):
            ps.append(prog(["\torg 0"] + t, maxkb=kb or 65, bins={"k.bin": bytes(i & 255 for i in range(600))}, fmt=rng.choice([1, 2, 3])))
    ps.append(prog(["\torg 0", "\tdc 1", "\trepeat 100000000", "\tds 1000", "\trepend"], maxkb=65))
    # programs that never settle
    osc = [["\torg 0", "\tif l=%d" % i, "\tdc 1", "\tendif", "\tdc 2", "l\tdc 3"] for i in (1, 2, 3)]
    osc += [["\torg 0", "\tif l&1", "\tdc 1", "\tendif", "l\tdc 3"], ["\torg 0", "\tds l", "l\tdc 3"], ["\torg 0", "\tds 9-l", "l\tdc 3"], ["\torg l+1", "l\tdc 3"],
            ["\torg 0", "\trepeat l", "\tdc 1", "\trepend", "l\tdc 3"], ["\torg 0", "\talign l+1", "l\tdc 3"], ["\torg 0", "a\tset b+1", "b\tset a+1", "\tdc.w a", "\tdc.w zz", "zz"],
            ["a\tequ a+1"], ["a\tequ a"], ["\torg a", "a"], ["\torg 0", "\tdc.w q", "\tifconst q", "\telse", "q\tequ 4", "\tendif"],
            ["\tprocessor 6502", "\torg $100", "\tbne l", "\tds l-$80", "l\tnop"], ["\tprocessor 6502", "\torg $f9", "\tlda l", "\tlda l", "\tlda l", "l\tnop"]]
    for t in osc:
        for mp, al in ((10, False), (rng.choice([1, 2, 3, 5]), False), (rng.choice([1, 2, 4, 12]), True)):
            ps.append(prog(t, maxp=mp, allp=al))
    for i in range(140 * k):
        ps.append(prog(source(rng, rng.randint(4, 12), undef=.04 if i % 3 == 0 else 0, iffwd=3, equfwd=5, dcfwd=5, err=1 if i % 5 == 0 else 0), maxp=rng.choice([10, 10, 10, 1, 2, 3, 4]), allp=rng.random() < .3))
    for n in (10, 31, 40) if k == 1 else (10, 31, 40, 100, 300):
        ps.append(prog(["\torg 0"] + ["q%d\teqm q%d+1" % (i, i + 1) for i in range(n)] + ["q%d\teqm 3" % n, "\tdc.w q0"]))
    ps.append(prog(["\torg 0", "q\teqm q", "\tdc q"]))
    if k > 1:
        ps.append(prog(["\torg 0", "q\teqm p+1", "p\teqm q+1", "\tdc q"]))
    return ps


# ---------------------------------------------------------------- C04
FORMS = {
    "6502": {"": "IMP", "#V": "IMM8", "V": "BYTEADR", "V,x": "BYTEADRX", "V,Y": "BYTEADRY", "(V,x)": "INDBYTEX", "(V),y": "INDBYTEY", "(V)": "INDWORD"},
    "6803": {"": "IMP", "#V": "IMM8", "V": "BYTEADR", "V,x": "BYTEADRX", ",x": "0X"},
    "6811": {"": "IMP", "#V": "IMM8", "V": "BYTEADR", "V,x": "BYTEADRX", "V,y": "BYTEADRY", ",x": "0X", ",y": "0Y"},
    "68908": {"": "IMP", "#V": "IMM8", "V": "BYTEADR", "V,x": "BYTEADRX", ",x": "0X", "V,sp": "BYTEADR_SP", ",x+": "0X", "V,x+": "BYTEADRX"},
}
FORMS["65c02"] = FORMS["6502"]
FORMS["6303"] = FORMS["6803"]
FORMS["68705"] = FORMS["6803"]
WIDER = {"IMM8": "IMM16", "BYTEADR": "WORDADR", "BYTEADRX": "WORDADRX", "BYTEADRY": "WORDADRY", "WORDADR": "REL", "0X": "BYTEADRX", "0Y": "BYTEADRY",
         "INDWORDX": "IMM16", "BYTEADR_SP": "WORDADR_SP"}
VALUES = ["0", "1", "$7f", "$80", "$ff", "$100", "$1234", "$ffff", "-1", "-128", "$10000", "zp", "ab", "fz", "fa", "z0"]
BYTEVAL = {"0": 0, "z0": 0, "1": 1, "$7f": 1, "$80": 1, "$ff": 1, "zp": 1, "-1": 1, "-128": 1}
SUFFIXES = ["0", "0x", "0y", "b", "bx", "by", "d", "e", "i", "ix", "iy", "l", "r", "u", "w", "wx", "wy", "a", "z", "zx", "s"]


def legal(ent, mode, v, cpu):
    """Would the instruction assemble?  Only used to put lines into programs that succeed."""
    kind, flags, modes = ent
    if flags & {"imod", "mask", "rel"} or kind != "mne":
        return False
    chain_, m = [], mode
    if mode in ("INDWORD",):
        m = "INDWORD" if "INDWORD" in modes else "INDBYTE"
    while m:
        chain_.append(m)
        m = WIDER.get(m)
    have = [x for x in chain_ if x in modes]
    if not have or "REL" in have or "BYTEREL" in have:
        return False
    size = BYTEVAL.get(v, 2)
    if mode == "IMP":
        return True
    if v == "$10000" or v.startswith("-"):
        return False
    wide = {"IMM16": 2, "WORDADR": 2, "WORDADRX": 2, "WORDADRY": 2, "INDWORD": 2, "INDWORDX": 2, "WORDADR_SP": 2, "0X": 0, "0Y": 0}
    return any(wide.get(x, 1) >= size for x in have)


C04HEAD = ["\tprocessor %s", "zp\tequ $42", "ab\tequ $4321", "z0\tequ 0", "\torg $1000"]
C04TAIL = ["fz\tequ $33", "fa\tequ $3344", "end_"]


def gen_C04(rng, k):
    ps = []
    for cpu in ("6502", "65c02", "6803", "6303", "68705", "6811", "68908"):
        good, bad, single = [], [], []
        for name, ent in sorted(ISA[cpu].items()):
            kind, flags, modes = ent
            for form, mode in FORMS[cpu].items():
                vals = VALUES if "V" in form else [""]
                if k == 1 and "V" in form:
                    sure = [v for v in vals if legal(ent, mode, v, cpu)]
                    vals = rng.sample(sure, min(3, len(sure))) + rng.sample(VALUES, 1)
                for v in vals:
                    nm = name.upper() if rng.random() < .1 else name
                    line = "\t%s\t%s" % (nm, form.replace("V", v))
                    if legal(ent, mode, v, cpu):
                        good.append(line)
                    elif flags & {"imod", "mask", "rel"}:
                        single.append(line)
                    else:
                        bad.append(line)
                if mode in ("IMP", "IMM8", "BYTEADR", "BYTEADRX") or rng.random() < .3 * k:
                    sf = rng.sample(SUFFIXES, 2 if k == 1 else 8)
                    for s in sf:
                        bad.append("\t%s.%s\t%s" % (name, s, form.replace("V", rng.choice(VALUES))))
            # several operands
            if flags & {"imod", "mask", "rel"} or rng.random() < .1:
                two = ["1,5", "0,0", "7,255", "8,5", "5,$100", "3,zp", "fz,5", "1,fz", "2,fa", "255,1", "256,1", "5,-1", "5,*", "5,*+10", "*,5"]
                three = ["1,5,*", "7,255,*+8", "0,$42,end_", "3,fz,*-10", "8,1,*", "1,256,*", "5,1,*+200", "4,x,*", "#5,zp,*", "zp,#5,*", "zp,x,*"]
                idx = ["5,x,1", "5,y,1", "5,x,7,*", "5,y,255,*+4", "zp,255", "zp,1,*", "#3,5", "#3,5,x", "#$ff,zp,x", "3,5,x", "5,sp,*", "#5,*", "x,*", ",x+,*", "5,x+,*+5", "5,*-100", ",x,3", ",x,*"]
                pool = two + three + idx
                for o in pool if k > 1 or len(flags) > 0 and rng.random() < .5 else rng.sample(pool, 12):
                    single.append("\t%s\t%s" % (name, o))
        if k > 1:
            bad = rng.sample(bad, min(len(bad), 2500))
        else:
            bad = rng.sample(bad, min(len(bad), 360))
            single = rng.sample(single, min(len(single), 300))

        def bundles(lines, size):
            rng.shuffle(lines)
            for i in range(0, len(lines), size):
                ps.append(prog([C04HEAD[0] % CPUS[cpu]] + C04HEAD[1:] + lines[i:i + size] + C04TAIL, note=cpu))
        bundles(good, 70)
        bundles(bad, 45)
        for s in single:
            ps.append(prog([C04HEAD[0] % CPUS[cpu]] + C04HEAD[1:] + [s] + C04TAIL, note=cpu))
        # the suffix given on legal operands
        for _ in range(30 * k):
            ls = []
            for _ in range(6):
                name = rng.choice(sorted(ISA[cpu]))
                form = rng.choice(sorted(FORMS[cpu]))
                ls.append("\t%s.%s\t%s" % (name, rng.choice(SUFFIXES), form.replace("V", rng.choice(["5", "zp", "fz", "$1234", "0"]))))
            ps.append(prog([C04HEAD[0] % CPUS[cpu]] + C04HEAD[1:] + ls + C04TAIL, strict=rng.random() < .3, note=cpu))
        # operands at the limits of a word
        wide = [n for n in sorted(ISA[cpu]) if set(ISA[cpu][n][2]) & {"WORDADR", "WORDADRX", "WORDADRY", "INDWORD", "WORDADR_SP", "IMM16"}]
        for v in ("65535", "65536", "-65535", "-65536", "-65537", "70000", "-70000", "$7fffffff", "-1", "-32769", "$123456789") if wide else ():
            for strict in (False, True):
                for n in rng.sample(wide, min(len(wide), 3 * k)):
                    form = rng.choice([f for f in sorted(FORMS[cpu]) if "V" in f])
                    ps.append(prog([C04HEAD[0] % CPUS[cpu]] + C04HEAD[1:] + ["\t%s%s\t%s" % (n, rng.choice(["", "", ".w", ".a", ".wx", ".e"]), form.replace("V", v))] + C04TAIL, strict=strict, note=cpu))
        # well-formed forced modes, alone so that each success shows its bytes
        ent = ISA[cpu]
        forced = []
        for name in sorted(ent):
            modes = ent[name][2]
            if ent[name][1]:
                continue
            for mode, s, f in (("BYTEADR", "b", "V"), ("WORDADR", "w", "V"), ("BYTEADRX", "bx", "V,x"), ("WORDADRX", "wx", "V,x"), ("WORDADRY", "wy", "V,y"), ("BYTEADRY", "by", "V,y"),
                               ("IMM8", "b", "#V"), ("WORDADR", "a", "V"), ("BYTEADR", "z", "V"), ("BYTEADR", "d", "V"), ("WORDADR", "e", "V"), ("WORDADRX", "w", "V,x"), ("BYTEADRX", "b", "V,x"), ("0X", "0x", ",x")):
                if mode in modes:
                    forced.append("\t%s.%s\t%s" % (name, s, f.replace("V", rng.choice(["5", "zp", "0", "fz"] if mode[0] in "B" else ["5", "zp", "$1234", "fa", "0"]))))
        rng.shuffle(forced)
        for i in range(0, len(forced) if k > 1 else min(len(forced), 160), 5):
            ps.append(prog([C04HEAD[0] % CPUS[cpu]] + C04HEAD[1:] + forced[i:i + 5] + C04TAIL, note=cpu))
    return ps


# ---------------------------------------------------------------- C05
F8REG = ["0", "1", "5", "8", "9", "10", "11", "12", "13", "14", "15", "16", "S", "I", "D", "J", "HU", "HL", "(IS)", "(IS)+", "(IS)-", "s", "i", "d", "j", "hu", "hl", "-1", "$e", "fz", "r3"]
F8SPC = ["A", "DC0", "DC", "H", "IS", "K", "KU", "KL", "PC0", "P0", "PC1", "P", "Q", "QU", "QL", "W", "a", "w", "dc0", "q"]


def gen_C05(rng, k):
    ps = []
    head = ["\tprocessor f8", "r3\tequ 3", "\torg $800"]
    tail = ["fz\tequ 6", "fa\tequ $3344"]
    good, alone = [], []
    vals = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "14", "15", "16", "17", "127", "128", "255", "256", "$1234", "$ffff", "$10000", "-1", "-2", "r3", "fz", "fa", "*", "#5", "(5)", "5,6", "", "'a", "r3+1", "5,x"]
    for name, (kind, flags, modes) in sorted(ISA["f8"].items()):
        if kind == "lr":
            both = F8REG + F8SPC
            pairs = [(a, b) for a in both for b in both]
            okd = ["A,KU", "A,KL", "A,QU", "A,QL", "A,IS", "KU,A", "KL,A", "QU,A", "QL,A", "IS,A", "K,P", "P,K", "K,PC1", "PC1,K", "Q,DC", "Q,DC0", "DC,Q", "DC0,Q", "H,DC", "H,DC0", "DC,H", "DC0,H", "P0,Q", "PC0,Q", "W,J", "J,W", "W,9", "9,W"]
            good += ["\tlr\t" + (x if rng.random() < .6 else x.lower()) for x in okd]
            for r in F8REG:
                if r not in ("15", "16", "-1"):
                    good += ["\tlr\tA,%s" % r, "\tlr\t%s,a" % r]
            alone += ["\tlr\t%s,%s" % p for p in (pairs if k > 1 else rng.sample(pairs, 330))]
            alone += ["\tlr\t" + x for x in ("A", "", "A,", ",A", "A,1,2", "A , 5", "A, 5", "A ,5", "(A),5", "A,(5)", "A,r3+2", "A,8|1")]
        elif kind == "bf_bt":
            for m in ["0", "1", "5", "7", "8", "15", "16", "fz", "r3", "-1", "255"]:
                for t in ["*", "*+5", "*-100", "*+128", "*+129", "*-127", "*-128", "lend", "fa"]:
                    (good if m in ("0", "1", "5", "7", "r3", "fz") and t in ("*", "*+5", "*-100", "lend", "*+128", "*-127") else alone).append("\t%s\t%s,%s" % (name, m, t))
            alone += ["\t%s\t%s" % (name, x) for x in ("5", "", "1,2,3", ",*", "1,", "(1),*")]
        elif kind == "branch":
            for t in ["*", "*+5", "*+1", "*-1", "*-100", "*+127", "*+128", "*+129", "*-126", "*-127", "*-128", "lend", "fa", "5", "", "*,5", "(lend)"]:
                (good if t in ("*", "*+5", "*+1", "*-1", "*-100", "*+127", "*+128", "*-126", "*-127", "lend") else alone).append("\t%s\t%s" % (name, t))
        elif kind == "sreg_op":
            for r in F8REG:
                (alone if r in ("15", "16", "-1") else good).append("\t%s\t%s" % (name, r))
            alone += ["\t%s\t%s" % (name, x) for x in ("", "A", "KU", "5,6", "#5", "(5)", "(IS", "IS)", "14+0")]
        elif kind in ("ins_outs", "lis", "lisu_lisl", "wordop", "byteop", "sl_sr"):
            lim = {"ins_outs": 15, "lis": 15, "lisu_lisl": 7, "wordop": 65535, "byteop": 255}.get(kind)
            for v in vals:
                try:
                    x = int(v.replace("$", "0x"), 0)
                except ValueError:
                    x = {"r3": 3, "fz": 6, "r3+1": 4}.get(v, -5)
                ok = x in (1, 4) if kind == "sl_sr" else 0 <= x <= lim
                (good if ok else alone).append("\t%s\t%s" % (name, v))
        elif kind == "mne":
            for v in ("", "5", "#5", "(5)", "A", "5,6"):
                (good if v == "" else alone).append("\t%s\t%s" % (name, v))
    rng.shuffle(good)
    for i in range(0, len(good), 30):
        ps.append(prog(head + good[i:i + 30] + ["lend"] + tail))
    for l in alone:
        ps.append(prog(head + [l, "lend"] + tail))
    for _ in range(20 * k):
        ls = [rng.choice(good) for _ in range(12)]
        ps.append(prog(head + ["\trorg $%x" % rng.choice([0, 0x100, 0x4000])] + ls + ["lend", "\trend"] + tail))
    return ps


# ---------------------------------------------------------------- C06
def gen_C06(rng, k):
    ps = []
    forms = []
    for cpu in ("6502", "65c02", "6803", "6303", "68705", "6811", "68908"):
        for name, (kind, flags, modes) in sorted(ISA[cpu].items()):
            if set(modes) & {"REL", "BYTEREL"}:
                if "BYTEREL" in modes:
                    forms += [(cpu, name, "$42,T", 3), (cpu, name, "fz,T", 3)]
                if "REL" in modes:
                    forms.append((cpu, name, "T", 2))
            if "rel" in flags:
                if "BITBRAMOD" in modes:
                    forms += [(cpu, name, "%d,$42,T" % b, 3) for b in (0, 3, 7)]
                elif "mask" in flags:
                    forms += [(cpu, name, "$42,$81,T", 4)]
                    if modes.get("BYTEADRX") or modes.get("0X"):
                        forms += [(cpu, name, "5,x,$81,T", 4)]
                    if modes.get("BYTEADRY") or modes.get("0Y"):
                        forms += [(cpu, name, "5,y,$81,T", 5)]
                else:
                    for m, o in (("IMP", "T"), ("IMM8", "#5,T"), ("BYTEADR", "$42,T"), ("BYTEADRX", "5,x,T"), ("0X", ",x,T"), ("BYTEADR_SP", "5,sp,T")):
                        if m in modes:
                            forms.append((cpu, name, o, 3))
    for name, (kind, flags, modes) in sorted(ISA["f8"].items()):
        if kind == "branch":
            forms.append(("f8", name, "T", 2))
        if kind == "bf_bt":
            forms.append(("f8", name, "5,T", 2))
    for cpu, name, op, ln in forms:
        base = rng.choice(["\torg $1000", "\torg $1000", "\torg $1000\n\trorg $%x" % rng.choice([0x200, 0xf000, 0xff80]), "\torg $fff0", "\torg $20"])
        # successful ones: targets at the extremes, several in one program
        ds = [0, 1, -1, 100, -100] + [ln + x for x in (0, 127, 126, -128, -127)]
        ls = []
        for d in rng.sample(ds, 5) + [ln - 5, ln + 120]:
            ls.append("\t%s\t%s" % (name, op.replace("T", "*%+d" % d)))
        # extremes by label, both directions, with another pass needed
        lab = ["back\tnop", "\tds 60", "\t%s\t%s" % (name, op.replace("T", "back")), "\t%s\t%s" % (name, op.replace("T", "ahead")), "\tds %d" % rng.choice([0, 5, 90]), "ahead\tnop"]
        ps.append(prog(["\tprocessor " + CPUS[cpu], base] + ls + lab + ["fz\tequ 6"], note=cpu))
        # from a place that is not known at first
        if k > 1 or rng.random() < .5:
            a = rng.choice([0x300, 0x1000, 0xff])
            ps.append(prog(["\tprocessor " + CPUS[cpu]] + rng.choice([["\torg uo"], ["\torg $20", "\trorg uo"], ["\torg $20", "\tds uo"]])
                           + ["\t%s\t%s" % (name, op.replace("T", str(a + rng.choice([0, 40, -40, 1000])))), "\tdc 1", "uo\tequ %d" % a, "fz\tequ 6"], note=cpu))
        step = 1 if k > 1 else 3
        offs = [ln + x for x in ([127, 128, 129, -128, -129, -130] + rng.sample([126, 130, 200, 255, 256, 300, 65535, -127, -131, -200, -256, -300, -65536, 1 << 31, -(1 << 31), 1 << 32, (1 << 32) + 5], 4 if k == 1 else 17))]
        for d in offs:
            if k == 1 and abs(d) < 140 and rng.random() < .2:
                continue
            ps.append(prog(["\tprocessor " + CPUS[cpu], base, "\t%s\t%s" % (name, op.replace("T", "*%+d" % d)), "fz\tequ 6"], note=cpu))
        for n in rng.sample([124, 125, 126, 127, 128, 129, 130], 2 if k == 1 else 7):
            ps.append(prog(["\tprocessor " + CPUS[cpu], base, "\t%s\t%s" % (name, op.replace("T", "ahead")), "\tds %d" % n, "ahead\tnop", "fz\tequ 6"], note=cpu))
            ps.append(prog(["\tprocessor " + CPUS[cpu], base, "back\tnop", "\tds %d" % (n - ln - 1), "\t%s\t%s" % (name, op.replace("T", "back")), "fz\tequ 6"], note=cpu))
    rng.shuffle(ps)
    if k == 1:
        ps = ps[:2600]
    # branch over code whose size settles late; branch into another segment, out of RORG
    for _ in range(60 * k):
        n = rng.randint(36, 44)
        ps.append(prog(["\tprocessor 6502", "\torg $1000", "\tbne l"] + ["\tlda fz%d" % (i % 3) for i in range(n)] + ["l\tnop", "fz0\tequ %d" % rng.choice([5, 300]), "fz1\tequ fz0", "fz2\tequ %d" % rng.choice([5, 500])]))
        ps.append(prog(["\tprocessor 6502", "\torg $1000", "\tds %d" % rng.randint(0, 120), "\trorg $%x" % rng.choice([0xf000, 0x1010, 0x1001, 0x80]), "a\tbne b", "\tds %d" % rng.randint(0, 130), "b\tbeq a", "\trend", "\tbne %s" % rng.choice("ab*"), "c\tnop"]))
        ps.append(prog(["\tprocessor 6502", "\tseg a", "\torg $1000", "x\tbne y", "\tseg b", "\torg $%x" % rng.choice([0x1040, 0x1081, 0x1082, 0x1080]), "y\tbne x", "\tseg a", "\tbeq y"], fmt=2))
    return ps


# ---------------------------------------------------------------- C07
MALFORMED = ["(", ")", "(1", "1)", "[1", "1]", "1+", "*/", "+", "1+*+", "1 2", "1 (2)", "a a", "(1)2", "1(2)", "5 'a", "\"a\"5", "@", "1@", "1+@", "!", "~", "-", "<", ">", "1&&", "||1", "1??2", "1?", "1==", "((((1))", "((1)))",
             "[[1]", "(1]", "[1)", "$", "%", "0x", "$g", "%2", "08", "09", "1a", "12ab", "'", "\"", "{1}", "{", "1,2", "1,", ",1", ",,", "#1", "1#2", "1:2", "\\1", "`1", "1;2", "..", ".", "...", "*", "**", "***", "*.*", "1=2", "1=>2", "1=<2",
             "1!2", "!!1", "--1", "~~5", "-~-5", "<>5", "><$1234", "1<<2<<3", "(1)(2)", "[1][2]", "1.w", "(1).b", "5d", "[5]d", "(15)d", "[255]d", "[1]d+[2]d", "1d", "undefd", "[undefd]d", "()", "[]", "1+()", "'a'", "'ab", "\"abcdefghij\"", "1/0", "0/0", "1%0", "5/0*0"]


def gen_C07(rng, k):
    ps = []
    g = Gen(rng)
    head = ["\tprocessor 6502", "\torg $1234", "k1\tequ 5", "k2\tequ -3", "k3\tequ $7fff", "k4\tset 0"]
    tail = ["f1\tequ 7", "f2\tequ -9", "l1\tnop", "f3\tequ f4+1", "f4\tequ 2"]
    syms = ["k1", "k2", "k3", "k4"]
    for i in range(150 * k):                             # many expressions, values shown by symbols, echo and data
        out = list(head)
        for j in range(10):
            d = rng.randint(1, 5)
            e = g.expr(d, syms + ([] if i % 3 else ["f1", "f2", "l1", "f3"]), big=i % 4 == 0, strings=i % 2 == 0)
            if len(e) > 400:
                continue
            kind = rng.randrange(4)
            if kind == 0:
                out.append("v%d\tset\t%s" % (j, e.replace("\"", "")))
            elif kind == 1:
                out.append("\tdc.l\t[%s]" % e.replace("\"", ""))
            elif kind == 2:
                out.append("\techo\t[%s]" % e.replace("\"", ""))
            else:
                out.append("v%d\tequ\t%s" % (j, e.replace("\"", "")))
        ps.append(prog(out + tail))
    # every pair of binary operators, every unary before and after each binary
    ops = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "=", "!=", "&&", "||", "?"]
    lines = []
    for a in ops:
        for b in ops:
            for x, y, z in ((7, 3, 2), rng.choice([(0, 5, 1), (1, 0, 3), (12, 5, 5), (2, 2, 1), (200, 3, 1)])):
                if b in "/%" and z == 0 or a in "/%" and y == 0:
                    y = 1
                lines.append("%d%s%d%s%d" % (x, a, y, b, z))
        for u in ["-", "~", "!", "<", ">"]:
            lines += ["5%s%s3" % (a, u) if a not in ("<<", ">>") else "5%s3" % a, "%s$1205%s3" % (u, a), "%s(9%s2)" % (u, a), "-5%s3" % a, "[-5]%s2" % a]
            if a not in ("<<", ">>"):
                lines += ["7%s%s%s2" % (a, u, rng.choice("-~!")), "1+%s4%s3" % (u, a), "3*%s4%s3" % (u, a)]
    for op in ops:                                       # extreme values
        for x in ("$7fffffffffffffff", "$8000000000000000", "-1", "0", "$80000000", "$100000000"):
            for y in ("1", "-1", "2", "$7fffffffffffffff", "$ffffffff", "$8000000000000000"):
                if op in ("<<", ">>"):
                    y = rng.choice(["1", "31", "32", "63", "0"])
                if op in "/%" and x == "$8000000000000000" and y == "-1":
                    continue
                lines.append("[%s]%s[%s]" % (x, op, y))
    rng.shuffle(lines)
    for i in range(0, len(lines), 25):
        out = list(head)
        for j, e in enumerate(lines[i:i + 25]):
            e = e if "/-0" not in e else "1"
            out.append("v%d\tequ\t%s" % (j, e))
        ps.append(prog(out))
    lits = ["0", "00", "007", "0377", "01777777", "8", "10", "99", "4294967295", "4294967296", "9223372036854775807", "$0", "$ff", "$FF", "$aBcD", "$ffffffff", "$100000000", "$7fffffffffffffff", "$ffffffffffffffff", "%0", "%1", "%10101010", "%1111111111111111", "0x0", "0xff", "0xFF", "0xAbC",
            "'a", "' ", "'0", "'\\", "\"a\"", "\"ab\"", "\"\"", "*", ".", "k1", "K1", "-0", "+5", "%102", "$1g", "0b1", "0x1g", "1_000", "0o7", "777", "078", "0x"]
    for l in lits:
        ps.append(prog(head + ["\tdc.l\t%s" % l, "q\tset\t%s" % l, "\techo\t%s" % l, "\tlda #<(%s)" % l]))
    for m in MALFORMED:
        for t in (["\tdc\t%s"] if k == 1 else ["\tdc\t%s", "\tlda\t%s", "\tif %s\n\tdc 1\n\tendif", "\techo %s"]):
            ps.append(prog(head + [t % m]))
        if m != '"':                                     # the newline would be part of the string
            ps.append(prog(head + ["q\tset\t%s" % m, "\tdc.l q"]))
    # unknown operands: undecided unless a logical operator is decided
    unk = ["u&&0", "0&&u", "u||1", "1||u", "u&&1", "1&&u", "u||0", "0||u", "u*0", "0*u", "u-u", "!u", "u?5", "0?u", "1?u", "u==u", "-u", "(u)", "[u]d", "u&0", "0&&(u/0)", "(1||u)+u", "(1||u)+5", "(0&&u)|4", "u,1", "1,u", "5+(0&&u)", "0&&0&&u", "1||1||u", "u||u||1", "(u||1)&&(0&&u)", "~u", "<u", ">u", "u<<1", "u/1", "1/u", "u%3"]
    for e in unk:
        for v in ("", "0", "1", "5"):
            t = ["u\tequ %s" % v] if v else []
            use = rng.choice([["\tif %s" % e, "\tdc 1", "\telse", "\tdc 2", "\tendif"], ["\tdc.w %s" % e], ["q\tequ %s" % e, "\tdc.w q&255"], ["\techo %s" % e, "\tdc 1"]])
            ps.append(prog(head + use + t))
    for n in (5, 30, 62, 63, 64, 65, 66, 100, 127, 128, 129):
        ps.append(prog(head + ["\tdc.w " + "(" * n + "5" + ")" * n]))
        ps.append(prog(head + ["\tdc.w " + "[" * n + "5" + "]" * n]))
        ps.append(prog(head + ["\tdc.w " + "1+(" * n + "5" + ")" * n if n < 100 else "\tdc 1"]))
        ps.append(prog(head + ["\tdc.w " + "-" * n + "5", "\tdc.l " + "~" * n + "5"]))
        ps.append(prog(head + ["\tdc.l " + "+".join(["1"] * n)]))
    for _ in range(40 * k):
        n = rng.randint(1, 5)
        ps.append(prog(head + ["e%d\teqm\t%s" % (i, g.expr(2, syms + ["e%d" % j for j in range(i)], strings=False)) for i in range(n)] + ["\tdc.l e%d" % i for i in range(n)] + ["\techo [e%d]d, e%d" % (n - 1, n - 1)]))
    for _ in range(150 * k):                             # tokens in any order, in lists and in operands
        e = "".join(rng.choice(TOKENS) for _ in range(rng.randint(1, 8)))
        use = rng.choice(["\tdc %s", "\tdc.w %s", "\tlda %s", "\tjmp %s", "q set %s", "\tif %s\n\tdc 1\n\tendif", "\techo %s", "\tds 1,%s"])
        if not ("q set" in use and e.count('"') % 2):
            ps.append(prog(["\tprocessor %s" % rng.choice(["6502", "6502", "65c02", "68hc11", "68908", "6303", "f8"])] + head[1:]
                           + rng.choice([[], ["x = 4", "y = 2", "sp = 1"]]) + [use % e, "\tdc 7"] + rng.choice([[], ["u = 3"]])))
    return ps


TOKENS = ["1", "2", "u", "k1", "[", "]", "(", ")", "+", "-", "*", "$", "%", "0x", "]d", "~", "x", "[x+", "[y+", "[sp+", '"a"', ",", "?", " ", "!", "!=",
          "a", ".", "0", "8", '"', "'c", "'", "#", ",x", ",y", ",sp", "),y", "=", "<", ">>", "&&", "|"]


# ---------------------------------------------------------------- C08
def gen_C08(rng, k):
    ps = []
    dirs = ["dc", "dc.b", "dc.w", "dc.l", "dc.s", "byte", ".byte", "byte.w", "word", ".word", "long", ".long", "db", "dw", "dd", ".dc.w", "dc.a", "byte.s"]
    cpus = ["6502", "65c02", "6803", "6303", "68705", "6811", "68908", "f8"]
    vals = ["0", "1", "127", "128", "255", "-1", "-128", "-127", "256", "-129", "-255", "-256", "257", "$7fff", "$8000", "$ffff", "$10000", "-32768", "-32769", "$12345678", "-70000", "$ffffffff", "$123456789", "\"abc\"", "\"\"", "\"A\"", "'z", "fb", "fw", "lab", "*", "<fw", ">fw", "k", "\"x;y,z\"", "\"it's\"", "\"12\"+1", "str"]
    okb = ["0", "1", "127", "128", "255", "-1", "-128", "\"abc\"", "\"A\"", "'z", "fb", "<fw", ">fw", "k", "\"x,y\"", "*&255"]
    okw = okb + ["256", "$7fff", "$8000", "$ffff", "-32768", "fw", "*", "lab"]
    okl = okw + ["$10000", "$12345678", "-70000", "$ffffffff", "$123456789"]

    def head(c):
        return (["\tprocessor " + CPUS[c]] if c else []) + ["k\tequ 9", "str\tsetstr hello", "\torg $%x" % rng.choice([0, 0x1000, 0x1003, 0xfff0, 0x7ffd])]
    tail = ["lab\tdc 1", "fb\tequ $12", "fw\tequ $1234"]

    def width(d):
        if ".w" in d and d != ".word" or d in ("dw", "word", ".word"):
            return okw
        if ".l" in d and d != ".long" or d in ("dd", "long", ".long"):
            return okl
        return okb
    for _ in range(170 * k):
        c = rng.choice(cpus)
        out = head(c)
        for _ in range(rng.randint(3, 8)):
            d = rng.choice(dirs)
            sw = rng.choice(["", "", "", ""])
            ok = width(d)
            what = rng.randrange(7)
            lb = rng.choice(["", "", "p%d" % rng.randint(0, 99999)])
            if what < 4:
                dd = d.upper() if rng.random() < .1 else d
                out.append("%s\t%s%s\t%s" % (lb, dd, sw, rng.choice([",", ", ", " , "]).join(rng.choice(ok) for _ in range(rng.choice([1, 1, 2, 3, 8, 30])))))
            elif what == 4:
                s = rng.choice(["ds", "ds.b", "ds.w", "ds.l", "res", "ds.s"]) if c != "f8" else rng.choice(["res", "res.w"])
                out.append("%s\t%s\t%s%s" % (lb, s, rng.choice(["0", "1", "2", "5", "17", "fb", "k"]), rng.choice(["", ",0", ",$ff", ",$55", ",fb", ",$1234"] if s != "ds.l" else [",$12345678", "", ",fw"])))
            elif what == 5:
                out.append("%s\talign\t%s%s" % (lb, rng.choice(["1", "2", "3", "4", "5", "8", "16", "100", "256"]), rng.choice(["", ",$ea", ",0", ",fb"])))
            else:
                out.append("%s\thex\t%s" % (lb, rng.choice(["00", "ff", "0123456789abcdefABCDEF", "12 34 56", "de ad", "0 1", "1 2", ""])))
        ps.append(prog(out + tail, fmt=rng.choice([1, 2, 3]), strict=rng.random() < .2))
    for d in dirs:                                       # each value alone
        for v in (vals if k > 1 else rng.sample(vals, 9)):
            c = rng.choice(["6502", "6803", "f8", ""])
            ps.append(prog(head(c) + ["\t%s\t%s" % (d, rng.choice([v, v, "1,%s,2" % v])), "e_"] + tail, strict=rng.random() < .4))
    for d in ("ds", "ds.w", "ds.l", "res.w", "align", "align.w"):
        for a in ("0", "1", "-1", "fb", "undefd", "1,fb", "1,undefd", "", "1,2,3", "fb,fb", "#1", "300", "5,256", "5,-1", "5,$12345", "k,k", "lab&7", "255", "256", "257", "1000"):
            if d.startswith("align") and a.startswith("-"):
                continue
            ps.append(prog(head(rng.choice(["6502", "6803"])) + ["\t%s\t%s" % (d, a), "e_\tdc.w e_"] + tail, strict=rng.random() < .3))
    for h in ("0", "012", "0 12", "zz", "0g", "g0", "12,34", "12 ; 34", "  1 2 3 4 ", "\"12\"", "(12)", "12:34", "1", "123456 789a bcde f0", "AaBbCc"):
        if h in ("zz",):
            continue
        ps.append(prog(head("6502") + ["\thex\t%s" % h, "e_\tdc.w e_"]))
    for _ in range(80 * k):                              # DV
        e = rng.choice(["..*$10203", "..+$12345678", "[..<<24]|[..<<16]|$5a", "..*$ffff01", "..", "..+1", "..*2", "..*..", "..&$0f", "-..", "..+*", "(..<<4)|1", "..+k", "..+fb", "5", "...", "<..", "..+\"a\"", "k"])
        d = rng.choice(["dv", "dv.b", "dv.w", "dv.l", "dv.s"])
        a = ",".join(rng.choice(["0", "1", "5", "15", "\"ab\"", "k", "fb", "-1"]) for _ in range(rng.randint(1, 5)))
        c = rng.choice(["6502", "6803", "6502", "6803", "f8", "68705"])
        before = rng.random() < .7
        ls = ["em\teqm\t%s" % e]
        ps.append(prog(head(c) + (ls if before else []) + ["p\t%s\tem %s" % (d, a), "q"] + ([] if before else ls) + tail))
    for c in ("6502", "6803", "f8", "68705"):            # byte order of every directive of every processor
        ps.append(prog(head(c) + ["\t%s\t$12,fb" % d for d in dirs] + ["\tdc.w $1234,fw", "\tdc.l $12345678,fw", "\tdc.s $1234&255", "\tds.w 2,$1234", "\tds.l 2,$12345678", "\tdw $1234", "\tdd $12345678"] + tail))
    for n in (100, 255, 256, 300):
        ps.append(prog(head("6502") + ["\tds %d,$5a" % n, "\tdc.w *", "\trepeat 30", "\tdc \"abcdefghij\"", "\trepend", "\tdc.w *"]))
    for _ in range(40 * k):                              # ALIGN of relocated code
        ps.append(prog(head("6502") + ["\tds %d" % rng.randint(0, 9), "\trorg $%x" % rng.choice([0xf000, 0xf001, 0x7, 0xfffe]), "\tds %d" % rng.randint(0, 9), "a1\talign %s" % rng.choice(["4", "8", "16", "256", "3"]), "a2\tdc.w a1,a2,*", "\trend", "a3\talign %s,7" % rng.choice(["2", "4", "16"]), "a4\tdc.w a3,a4"]))
    return ps


# ---------------------------------------------------------------- C09
def gen_C09(rng, k):
    ps = []

    def image():
        out = ["\tprocessor 6502"]
        pc = rng.choice([0, 1, 0x80, 0xff, 0x100, 0x1000, 0x12ff, 0xff00, 0xfff0, 0x10000, 0x12345])
        style = rng.randrange(4)
        if style == 0:
            out.append("\tseg code")
        if rng.random() < .85:
            out.append("\torg $%x%s" % (pc, rng.choice(["", ",$55", ",$ff", ",0"])))
        for _ in range(rng.randint(1, 8)):
            w = rng.randrange(12)
            if w < 3:
                out.append("\tdc %s" % ",".join(str(rng.randint(0, 255)) for _ in range(rng.randint(1, 20))))
            elif w == 3:
                out.append("\tds %d%s" % (rng.choice([0, 1, 5, 30]), rng.choice(["", ",7"])))
            elif w == 4:
                pc += rng.choice([40, 41, 300, 200])
                out.append("\torg $%x%s" % (pc, rng.choice(["", ",$aa", ",1"])))
            elif w == 5:
                out += ["\tseg.u bss%d" % rng.randint(1, 2), "\torg $%x" % rng.choice([0, 0x80, 0x4000]), "bv%d\tds %d" % (rng.randint(1, 9999), rng.randint(1, 5)), "\tseg %s" % ("code" if style == 0 else "initial code segment")]
            elif w == 6:
                out += ["\trorg $%x" % rng.choice([0, 0x100, 0xf000]), "\tdc.w *,1", rng.choice(["\trend", "\tdc 3"])]
            elif w == 7:
                out.append("\talign %d%s" % (rng.choice([2, 16, 64]), rng.choice(["", ",$cc"])))
            elif w == 8:
                out += ["\tseg s%d" % rng.randint(1, 2), "\torg $%x" % (pc + rng.choice([0, 300, 500])), "\tdc 1,2"]
                pc += 600
            elif w == 9:
                out.append("\torg *%s" % rng.choice(["", "+1", "+5", "+0"]))
            elif w == 10:
                out.append("\thex 0102030405")
            else:
                out.append("\torg $%x" % rng.choice([max(0, pc - 1), pc // 2, 5]))     # often backwards
        return out
    for _ in range(200 * k):
        out = image()
        for f in (1, 2, 3):
            ps.append(prog(out, fmt=f))
    fixed = [[], ["\torg $1000"], ["\torg 0", "\tdc 1"], ["\torg $ffff", "\tdc 1"], ["\torg $ffff", "\tdc 1,2"], ["\torg 5", "\tds 3"], ["\torg 5", "\tds 3", "\torg 20", "\tdc 1"], ["\torg 5,9", "\torg 20", "\tdc 1"], ["\torg 5,9", "\tdc 1", "\torg 20", "\tdc 1"],
             ["\torg 5", "\tdc 1", "\torg 20,9", "\tdc 1", "\torg 30", "\tdc 1"], ["\torg 5", "\tdc 1", "\torg 5", "\tdc 2"], ["\torg 5", "\tdc 1", "\torg 6", "\tdc 2"], ["\torg 5", "\tdc 1", "\torg 4", "\tdc 2"], ["\tseg.u u", "\torg 5", "\tds 3"], ["\tseg.u u", "\torg 5", "\tdc 3"],
             ["\torg $100", "\tdc 1", "\torg $80", "\tdc 2", "\torg $200", "\tdc 3"], ["\torg $100", "\torg $80", "\tdc 2"], ["\torg $100,3", "\tds 0", "\torg $110", "\tdc 2"], ["\tdc 1,2"], ["\tdc.w *", "\torg 20", "\tdc 5"], ["\torg 5", "\tincbin \"d.bin\""],
             ["\torg $100", "\tdc 1", "\trorg $80", "\tdc 2", "\trend", "\torg $110", "\tdc 3"], ["\torg 5", "\tdc 1", "\tseg b", "\torg 50", "\tdc 2", "\tseg a", "\torg 60", "\tdc 3", "\tseg b", "\tdc 4"], ["\torg 10", "\tdc 1", "\talign 16,3", "\torg 40", "\tdc 1"],
             ["\torg 10", "\tds 5,1", "\torg 20", "\tds 5", "\torg 30", "\tdc 9"]]
    for n in (1, 2, 255, 256, 257, 1000):
        fixed.append(["\torg $1000", "\tds %d,$33" % n, "\torg $2000", "\tdc 1"])
        fixed.append(["\torg $1000", "\tdc 1", "\torg $1001+%d" % n, "\tdc 1"])
        fixed.append(["\torg $1000", "\trepeat %d" % min(n, 300), "\tdc 1", "\trepend"])
    for t in fixed:
        for f in (1, 2, 3):
            ps.append(prog(t, fmt=f, bins=BIN))
    for i in range(30 * k):
        s = source(rng, rng.randint(4, 12), org=4, seg=3, rorg=2)
        for f in (1, 2, 3):
            ps.append(prog(s, fmt=f))
    return ps
