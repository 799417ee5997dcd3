"""Programs in which every feature may meet every other: files, macros, loops, conditions, scopes, segments, listings."""
from dasmlib import Prog

BINS = {"d.bin": bytes(range(1, 30)), "x/e.bin": b"\0\xff\x80", "n.bin": b""}


class Rich:
    def __init__(self, rng, **w):
        self.r = rng
        self.n = 0
        self.files = {}
        self.labels = []            # defined for certain
        self.later = []             # used, defined at the end
        self.sets = ["s0", "s1"]
        self.macs = []              # names, callable
        self.fixed = set()
        self.w = dict(data=8, dwf=4, lab=4, set=4, local=3, dollar=3, ifs=5, rep=4, call=6, inc=4, incbin=1, ds=3, align=2, org=1, seg=2, rorg=2,
                      eqm=2, str=2, dyn=2, echo=3, list=2, sub=2, ins=5, branch=2, odd=1, comment=2, ifc=3, equ=3, dv=1, hexd=1, asked=1)
        self.w.update(w)
        self.ks = [k for k in self.w if self.w[k]]
        self.kw = [self.w[k] for k in self.ks]

    def name(self, p="n"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def fwd(self):
        if self.later and self.r.random() < .5:
            return self.r.choice(self.later)[0]
        n = self.name("f")
        self.later.append((n, self.r.choice(["l", "l", "b", "w"])))
        return n

    def val(self, args=0):
        r = self.r
        c = ["5", "$7f", "0", "255", "1+2", "%101", "'q", "s0", "s1", "<s0", "(3)", "[4]", "!s1", "s0&3", "2*s1&$f"]
        if args:
            c += ["{%d}" % r.randint(1, args)] * 5
        if self.labels:
            l = r.choice(self.labels)
            c += ["<" + l, ">" + l, l + "&$7"]
        if r.random() < .3:
            c.append("<" + self.fwd())
        return r.choice(c)

    def lbl(self, top, p=.25):
        """A label, if the place is assembled only once"""
        if top and self.r.random() < p:
            n = self.name("l")
            self.labels.append(n)
            return n + self.r.choice(["", "", ":"])
        return ""

    def block(self, n, d, top, args=0):
        out = []
        for _ in range(n):
            out += getattr(self, "k_" + self.r.choices(self.ks, self.kw)[0])(d, top, args)
        return out

    # ------------------------------------------------ statements
    def k_data(self, d, top, args):
        r = self.r
        o = r.choice(["dc", "dc.b", "byte", "dc.w", ".word", "dc.l", "dc.s"])
        return ["%s\t%s\t%s" % (self.lbl(top), o, ",".join(self.val(args) if o[-1] not in "cbe" else self.val(args) for _ in range(r.choice([1, 1, 2, 3, 5]))))]

    def k_dwf(self, d, top, args):
        return ["%s\tdc.w\t%s" % (self.lbl(top), self.r.choice(["%s", "%s+1", "%s,*", "*,%s", "%s-*"]) % self.fwd())]

    def k_lab(self, d, top, args):
        if not top:
            return ["\tdc.w *"]
        return [self.lbl(1, 1)]

    def k_set(self, d, top, args):
        s = self.r.choice(self.sets)
        return ["%s\tset\t%s" % (s, self.r.choice([s + "+1", "s1+1", "0", "3", "*&15", self.val(args)]))]

    def k_equ(self, d, top, args):
        if not top:
            return []
        n = self.name("e")
        v = self.r.choice([self.val(args), "*", "*+1", self.fwd() + "&63"])
        self.labels.append(n)
        return ["%s\t%s\t%s" % (n, self.r.choice(["equ", "=", "EQU"]), v)]

    def k_local(self, d, top, args):
        return self.r.choice([[".a%d\tdc.w .a%d" % (self.n, self.n)], ["\tdc.w .b%d" % self.n, ".b%d" % self.n], [".q\tset %s" % self.val(args), "\tdc .q&255"], ["\tdc.w .lz"]][:3 if self.r.random() < .9 else 4])

    def k_dollar(self, d, top, args):
        if top:
            return [self.lbl(1, 1), "\tdc.w 1$", "1$\tdc.w 1$,2$", "2$"]
        return ["%d$\tset %s" % (self.r.choice([1, 2]), self.val(args)), "\tdc 1$&255"]

    def k_ifs(self, d, top, args):
        if d <= 0:
            return []
        r = self.r
        c = r.choice(["1", "0", "s0", "s1>2", "s0&1", "!s0", self.fwd() + "&1", "*&2", "s0=s1", "1 || nodef", "0 && nodef"] + (["{1}"] * 3 if args else []))
        keep = list(self.labels), list(self.macs)
        out = ["\tif %s" % c] + self.block(r.randint(0, 3), d - 1, top, args)
        if r.random() < .6:
            out += ["\telse"] + self.block(r.randint(0, 3), d - 1, top, args)
        self.labels, self.macs = keep
        return out + [r.choice(["\tendif", "\teif"])]

    def k_ifc(self, d, top, args):
        if d <= 0:
            return []
        r = self.r
        c = r.choice(["s0", "nodef", self.fwd(), "m_e", "t_s", "dyn1", ".q", "1$"] + self.labels[-1:])
        keep = list(self.labels), list(self.macs)
        out = ["\t%s %s" % (r.choice(["ifconst", "ifnconst"]), c)] + self.block(r.randint(0, 2), d - 1, top, args)
        if r.random() < .5:
            out += ["\telse"] + self.block(r.randint(0, 2), d - 1, top, args)
        self.labels, self.macs = keep
        return out + ["\tendif"]

    def k_asked(self, d, top, args):
        return ["\tifconst %s" % self.r.choice(["nodef", "s0", "asked"]), "\tendif"]

    def k_rep(self, d, top, args):
        if d <= 0:
            return []
        r = self.r
        keep = list(self.macs)
        out = ["\trepeat %s" % r.choice(["0", "1", "2", "3", "s0&3", "2", self.fwd() + "&1"] + (["{1}&3"] if args else []))]
        out += self.block(r.randint(1, 3), d - 1, False, args)
        self.macs = keep
        return out + [r.choice(["\trepend", "\tREPEND"])]

    def mac(self, d):
        r = self.r
        n = self.name("M")
        args = r.randint(0, 3)
        w = dict(self.w)
        body = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .12:
                body += r.choice([["\tif {1}", "\tmexit", "\tendif"], ["\tmexit"], ["\tif s0", "\trepeat 2", "\tmexit", "\trepend", "\tendif"]]) if args else ["\tif s0", "\tmexit", "\tendif"]
            elif x < .15:
                body.append("\tend")
            elif x < .3 and args:
                body += r.choice([["\tdc \"{%d}\"" % r.randint(1, args)], ["\techo \"{0}\""], ["v_{1}\tset 4"], ["; {1} {%d}" % args], ["\tdc {1}{%d}&255" % args], ["\tdc {1}+{%d}&255" % r.randint(1, args)]])
            else:
                body += self.block(1, d - 1, False, args)
        self.macs.append((n, args))
        return ["\t%s %s" % (r.choice(["mac", "macro", "MAC"]), n)] + body + [r.choice(["\tendm", "\tENDM"])]

    def k_call(self, d, top, args):
        r = self.r
        if top and d > 0 and (not self.macs or r.random() < .35):
            return self.mac(d)
        if not self.macs:
            return []
        n, a = r.choice(self.macs)
        av = []
        for _ in range(a + r.choice([0, 0, 0, 1])):
            av.append(r.choice([self.val(args), self.val(args), "1", "2", "0", r.choice(["", "\"a,b\"", "\"x y\"", self.fwd(), "\"\"", " 3", "4 "]) if r.random() < .25 else "3"]))
        return ["%s\t%s\t%s" % (self.lbl(top, .2), n, r.choice([",", ", ", " ,", ","]).join(av))]

    def k_inc(self, d, top, args):
        if d <= 0:
            return []
        r = self.r
        plain = [f for f in self.files if f.endswith("p.h")]
        if plain and r.random() < .3:
            return ["\tinclude \"%s\"" % r.choice(plain)]
        n = "%s%s%s.h" % (r.choice(["", "", "x/", "yy/"]), self.name("i"), "" if top else "p")
        body = self.block(r.randint(0, 4), d - 1, top, 0)
        x = r.random()
        if x < .08:
            body += ["\tif %s" % r.choice(["1", "0", "s0"]), "\tdc 99"]       # left open: closed at the end of the file
        elif x < .12:
            body += ["\tif 1", "\tdc 98", "\tif s0", "\tdc 97"]
        elif x < .2:
            body += ["\tend", "\tdc 96", "\tfrob"]
        elif x < .22:
            body += ["\trepeat 2", "\tdc 95"]
        elif x < .24:
            body += ["\tendif"]
        self.files[n] = r.choice(["\n", "\n", "\r\n"]).join(body) + r.choice(["\n", "\n", ""])
        short = n.split("/")[-1]
        return ["\tinclude %s" % (r.choice(["\"%s\"", "\"%s\"", "%s"]) % (n if "/" not in n or r.random() < .4 else short))]

    def k_incbin(self, d, top, args):
        return ["%s\tincbin %s" % (self.lbl(top), self.r.choice(["\"d.bin\"", "d.bin", "\"d.bin\",25", "\"x/e.bin\"", "\"e.bin\"", "\"n.bin\"", "\"d.bin\",s0+20", "\"e.bin\",1"]))]

    def k_ds(self, d, top, args):
        return ["%s\tds%s\t%s%s" % (self.lbl(top), self.r.choice(["", ".b", ".w", ".l"]), self.r.choice(["0", "1", "3", "s0&7", self.fwd() + "&3"]), self.r.choice(["", ",$ee", "," + self.val(args)]))]

    def k_align(self, d, top, args):
        return ["%s\talign\t%s%s" % (self.lbl(top), self.r.choice(["2", "4", "16", "3"]), self.r.choice(["", ",$dd"]))]

    def k_org(self, d, top, args):
        return ["%s\torg\t*+%s" % (self.lbl(top), self.r.choice(["0", "3", "s0", "16,$cc"]))]

    def k_seg(self, d, top, args):
        r = self.r
        return r.choice([["\tseg.u bss%d" % r.randint(0, 1), "%s\tds %d" % (self.lbl(top, .8), r.randint(0, 3)), "%s\tds 1" % self.lbl(top, .5), "\tseg code"], ["\tseg data", "%s\tdc %d" % (self.lbl(top), r.randint(0, 255)), "\tseg code"], ["\tseg code"], ["\tseg data"]][:2 if r.random() < .85 else 4])

    def k_rorg(self, d, top, args):
        r = self.r
        return ["%s\trorg\t%s" % (self.lbl(top), r.choice(["$f000", "*", "*+$100", "$20", self.fwd()]))] + self.block(r.randint(0, 2), d - 1, top, args) + (["%s\trend" % self.lbl(top)] if r.random() < .9 else [])

    def k_eqm(self, d, top, args):
        return self.r.choice([["m_e\teqm\t%s" % self.r.choice(["*+1", "s0+1", "*", self.val(args), self.fwd() + "&31"])], ["\tdc.w m_e"], ["\tdc.w m_e,m_e"]])

    def k_str(self, d, top, args):
        return self.r.choice([["t_s\tsetstr\t%s" % self.r.choice(["abc", "s0", "x y", "q"])], ["\tdc t_s"], ["\techo t_s"], ["t_y\tsetsym t_s"] if self.r.random() < .2 else ["\tdc t_s,1"], ["t_s\tset \"hey\""]])

    def k_dyn(self, d, top, args):
        return self.r.choice([["\"dyn\",s0\tset %s" % self.val(args)], ["\"dyn\",s0&3,\"z\"\tset *"], ["\"dyn\",1\tset s1"], ["\tdc dyn1&255"]])

    def k_echo(self, d, top, args):
        return ["\techo %s" % ",".join(self.r.choice(["\"txt\"", self.val(args), "*", "[s0]d", self.fwd(), "\"a  b\"", "t_s", "..."]) for _ in range(self.r.randint(1, 3)))]

    def k_list(self, d, top, args):
        return ["\tlist %s" % self.r.choice(["on", "off", "localon", "localoff"])]

    def k_sub(self, d, top, args):
        return ["%s\tsubroutine" % self.lbl(top, .4)]

    def k_ins(self, d, top, args):
        r = self.r
        v = self.val(args)
        return ["%s\t%s" % (self.lbl(top), r.choice(["lda\t#%s" % v, "lda\t%s" % self.fwd(), "sta\t%s,x" % v, "nop", "lda\t(%s),y" % r.choice(["5", "s0&15"]), "jmp\t%s" % self.fwd(), "ldx\t%s,y" % v, "lda.w\t%s" % v, "inx", "LDA\t#<%s" % self.fwd(), "jmp\t(%s)" % self.fwd()]))]

    def k_branch(self, d, top, args):
        return [self.r.choice(["\tbne\t*", "\tbeq\t*+5", ".b\tbne\t.b"][:2]), "\tbcc\t.c%d" % self.n, ".c%d" % self.n]

    def k_odd(self, d, top, args):
        return self.r.choice([["\tfrob 5"], ["\tdc 256"], ["\tlda #$100"], ["\tdc.w undefd"], ["\terr"], ["\tdc (1"], ["\tendif"], ["\trepend"], ["\tinclude \"none.h\""], ["\tlda (5"], ["\tmexit"], ["\torg 5"], ["\tbne *+500"], ["\tdc 5/0"], ["\trend"]])

    def k_comment(self, d, top, args):
        return self.r.choice([["; note"], [""], ["/* a */\tdc 1"], ["/* b", "\tfrob", "*/"], ["\tdc 2 ; c"], ["\tdc 3\t/* d */"], ["\t; e ; f"]])

    def k_dv(self, d, top, args):
        return ["d_v\teqm ..+%s" % self.r.choice(["1", "s0", "*"]), "%s\tdv%s d_v %s" % (self.lbl(top), self.r.choice(["", ".w"]), ",".join(self.r.choice(["1", "2", "\"ab\"", "s0"]) for _ in range(2)))]

    def k_hexd(self, d, top, args):
        return ["\thex %s" % self.r.choice(["01", "a0b1", "12 34"])]

    def program(self, n, depth, **kw):
        r = self.r
        out = ["\tprocessor 6502", "\tseg code", "\torg $%x%s" % (r.choice([0x1000, 0, 0x7f0]), r.choice(["", "", ",$ff"])), "s0\tset %d" % r.randint(0, 3), "s1\tset 1", "t_s\tsetstr hi", "m_e\teqm *"]
        out += self.block(n, depth, True)
        out += ["\tseg code", "\tsubroutine"]
        for n_, k in self.later:
            if r.random() < .004:
                continue
            out.append(n_ if k == "l" else "%s\tequ $%x" % (n_, r.randint(0, 255) if k == "b" else r.randint(0, 0x3000)))
            if k == "l" and r.random() < .3:
                out.append("\tdc 1")
        self.files["m.asm"] = r.choice(["\n", "\n", "\n", "\r\n"]).join(out) + r.choice(["\n", "\n", ""])
        dirs = ["-Ix", "-Iyy"]
        r.shuffle(dirs)
        opt = dict(fmt=r.choice([1, 2, 2, 3]), errfmt=r.choice([0, 0, 1, 2]), strict=r.random() < .08, sort=r.choice([0, 0, 1, 2]), last=r.random() < .3, maxp=r.choice([10, 10, 10, 10, 3, 2]), allp=r.random() < .1, remove=r.random() < .1,
                   defs=dirs + r.choice([[], [], ["-Dcmd=5"], ["-Mcmd=*"]]))
        opt.update(kw)
        return Prog(self.files, BINS, note="rich", **opt)


def rich(rng, count, weights=None, **kw):
    ps = []
    while len(ps) < count:
        p = Rich(rng, **(weights or {})).program(rng.randint(3, 9), rng.choice([1, 2, 2, 3, 3, 4]), **kw)
        if sum(len(f) for f in p.files.values()) < 4500 and all(len(l) < 400 for f in p.files.values() for l in f.split(b"\n")):
            ps.append(p)
    return ps
