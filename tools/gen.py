"""Random building blocks for programs: expressions, operands and whole sources.

Everything is drawn from the random.Random given, so a seed determines a program.
Limits of dasm that are outside the specification (line length, name length, nested
macro definitions, shift counts outside 0..63 ...) are respected here.
"""
import os
import re

from dasmlib import SPEC, Prog

CPUS = {"6502": "6502", "65c02": "65c02", "6803": "6803", "6303": "HD6303", "68705": "68705", "6811": "68HC11",
        "68908": "68908", "f8": "f8"}
BINOPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "=", "!=", "&&", "||", "?"]
UNOPS = ["-", "~", "!", "<", ">"]


def isa():
    """cpu -> {mnemonic: (kind, flags, {mode: opcode})}, from the specification's tables."""
    out, cur = {}, None
    names = {"Isa6502": "6502", "Isa65c02": "65c02", "Isa6803": "6803", "IsaHD6303": "hd", "Isa68705": "68705",
             "Isa6811": "6811", "Isa68908": "68908", "IsaF8": "f8"}
    for line in open(os.path.join(SPEC, "Isa.tla")):
        m = re.match(r"(\w+) == Table\(<<", line)
        if m:
            cur = out.setdefault(names[m.group(1)], {})
        for m in re.finditer(r'M\("([^"]+)", "(\w+)", \{([^}]*)\}, <<(.*?)>>\)', line):
            modes = dict((k, int(v)) for k, v in re.findall(r"<<AM_(\w+), (\d+)>>", m.group(4)))
            cur[m.group(1)] = (m.group(2), set(re.findall(r'"(\w+)"', m.group(3))), modes)
    out["6303"] = dict(out["6803"])
    out["6303"].update(out.pop("hd"))
    return out


ISA = isa()


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    # ------------------------------------------------------------ expressions
    def literal(self, big=False):
        r = self.r
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 31, 63, 64, 100, 127, 128, 200, 254, 255])
        if big or r.random() < .15:
            v = r.choice([256, 257, 511, 1000, 4095, 32767, 32768, 65534, 65535, 65536, 70000, 1 << 20, (1 << 30) - 1, 1 << 30,
                          (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 0x123456789AB, (1 << 62), (1 << 63) - 1, r.randrange(1 << 40)])
        k = r.randrange(6)
        if k == 0:
            return "%d" % v
        if k == 1:
            return "$%x" % v if r.random() < .7 else "$%X" % v
        if k == 2:
            return "0x%x" % v
        if k == 3:
            return "%" + bin(v)[2:] if v < 1 << 20 else "%d" % v
        if k == 4:
            return "0%o" % v
        if r.random() < .6:
            return "'" + r.choice("abzAZ09_%&*")
        return '"' + "".join(r.choice("abcXYZ012 ") for _ in range(r.randint(1, 9))) + '"'

    def expr(self, depth, syms=(), big=False, strings=True, spaces=True):
        """A well-formed expression (its value may still be out of any range)."""
        r = self.r
        if depth <= 0 or r.random() < .12:
            if syms and r.random() < .5:
                return r.choice(syms)
            if r.random() < .06:
                return r.choice(["*", "."])
            t = self.literal(big)
            return t if strings or t[0] != '"' else "9"
        k = r.random()
        if k < .18:
            u = r.choice(UNOPS)
            return u + self.expr(depth - 1, syms, big, strings, spaces)
        if k < .32:
            o, c = r.choice(["()", "[]"])
            return o + self.expr(depth - 1, syms, big, strings, spaces) + c
        op = r.choice(BINOPS)
        a = self.expr(depth - 1, syms, big, strings, spaces)
        b = self.expr(depth - 1, syms, big, strings, spaces)
        if op in ("<<", ">>"):
            b = str(r.choice([0, 1, 2, 4, 7, 8, 15, 16, 31, 32, 33, 62, 63]))
        if op in ("/", "%"):
            b = r.choice(["1", "2", "3", "7", "10", "[-3]", "255", "$100", "65536", "[-1]"])
        sp = " " if spaces and r.random() < .2 else ""
        return a + sp + op + sp + b

    # ------------------------------------------------------------ general programs
    def name(self):
        self.n += 1
        return self.r.choice(["l", "Lab", "sym_", "w_", "Q", "z9", "verylongname_of_a_label_"]) + str(self.n)


def prog(lines, **kw):
    nl = kw.pop("eol", "\n")
    return Prog(nl.join(lines) + (nl if kw.pop("last_nl", True) else ""), **kw)


class Source(Gen):
    """A random source using most of the language, by weighted line kinds."""

    KINDS = {"ins": 6, "branch": 2, "dc": 5, "dcfwd": 3, "ds": 1, "align": 1, "equ": 2, "equfwd": 2, "set": 2, "label": 3,
             "if": 2, "iffwd": 1, "ifconst": 1, "repeat": 1, "org": 1, "seg": 1, "rorg": 1, "macro": 1, "echo": 1, "sub": 1,
             "local": 1, "dollar": 1, "eqm": 1, "list": 0, "hex": 1, "err": 0}

    def __init__(self, rng, weights=None, cpu="6502", undef=0.0):
        Gen.__init__(self, rng)
        self.w = dict(self.KINDS if weights is None else weights)
        self.cpu, self.undef = cpu, undef
        self.out = []
        self.later = []        # names that must still be defined
        self.known = []        # constants defined so far
        self.labels = []
        self.sets = []
        self.macros = []
        self.segs = []
        self.addr = 0x1000
        self.inrorg = False

    def put(self, op, label="", arg=""):
        self.out.append("%s\t%s\t%s" % (label, op, arg) if arg else "%s\t%s" % (label, op))

    def fwd(self):
        if self.undef and self.r.random() < self.undef:
            return "undefined%d" % self.r.randint(1, 3)
        if self.later and self.r.random() < .5:
            return self.r.choice(self.later)[0]
        n = self.name()
        self.later.append((n, self.r.choice(["label", "label", "const", "zp"])))
        return n

    def val(self, lim=255):
        r = self.r
        c = [str(r.randint(0, min(lim, 255)))]
        if self.known:
            c.append(r.choice(self.known) + "&" + str(lim))
        if self.labels:
            c += ["<" + r.choice(self.labels), ">" + r.choice(self.labels)]
        if self.sets:
            c.append(r.choice(self.sets) + "&" + str(lim))
        return r.choice(c)

    def small(self, hi=6):
        return str(self.r.randint(0, hi))

    def block(self, n, depth):
        for _ in range(n):
            ks = list(self.w)
            k = self.r.choices(ks, [self.w[x] for x in ks])[0]
            getattr(self, "k_" + k)(depth)

    def k_ins(self, d):
        r = self.r
        f = r.randrange(8)
        if self.cpu == "f8":
            return self.put(r.choice(["lr", "lr"]), arg=r.choice(["A,0", "A,KU", "5,A", "Q,DC0"]))
        arg = ["#" + self.val(), "$%02x" % r.randint(0, 255), "$%04x" % r.randint(256, 65535), self.fwd(), "#<" + self.fwd(),
               self.fwd() + "+1", r.choice(self.labels) if self.labels else "$80", "$%x,x" % r.choice([0x10, 0xff, 0x100, 0x1234])][f]
        self.put("lda", label=self.maybe_label(.15), arg=arg) if self.cpu in ("6502", "65c02") else self.put("lda" if self.cpu in ("68705", "68908") else "ldaa", arg=arg)

    def maybe_label(self, p):
        if self.r.random() < p:
            n = self.name()
            self.labels.append(n)
            return n
        return ""

    def k_branch(self, d):
        r = self.r
        if self.labels and r.random() < .4:
            self.put("bne", arg=self.labels[-1])
        else:
            n = self.name()
            self.put("bne", arg=n)
            self.block(r.randint(0, 2), 0)
            self.out.append(n)
            self.labels.append(n)

    def k_dc(self, d):
        r = self.r
        s = r.choice(["dc", "dc.b", ".byte", "byte", "dc.w", ".word", "dc.l", "dc.s"])
        self.put(s, self.maybe_label(.2), ",".join(self.val() for _ in range(r.randint(1, 5))))

    def k_dcfwd(self, d):
        r = self.r
        f = self.fwd()
        self.put(r.choice(["dc.w", "dc.l", ".word"]), self.maybe_label(.2), r.choice([f, f + "-1", f + "+" + self.val(), "[" + f + ">>1]", f + ",*"]))

    def k_ds(self, d):
        self.put(self.r.choice(["ds", "ds.b", "ds.w", "ds.l"]), self.maybe_label(.2), self.small(9) + self.r.choice(["", "," + self.val()]))

    def k_align(self, d):
        self.put("align", self.maybe_label(.3), self.r.choice(["1", "2", "4", "8", "16", "3"]) + self.r.choice(["", "," + self.val()]))

    def k_equ(self, d):
        n = self.name()
        self.put(self.r.choice(["equ", "="]), n, self.val() + self.r.choice(["", "+1", "*2", "<<3"]))
        self.known.append(n)

    def k_equfwd(self, d):
        n = self.name()
        self.put("equ", n, self.fwd() + self.r.choice(["", "+1", "-2", "&255"]))

    def k_set(self, d):
        if self.sets and self.r.random() < .6:
            n = self.r.choice(self.sets)
            self.put("set", n, self.r.choice([n + "+1", self.val(), n + "*2"]))
        else:
            n = self.name()
            self.put("set", n, self.val())
            self.sets.append(n)

    def k_eqm(self, d):
        n = self.name()
        self.put("eqm", n, self.r.choice(["*+1", "*-" + self.small(), self.val() + "+2"]))
        self.put("dc.w", arg=n)
        self.put("dc.w", arg=n + "," + n)

    def k_label(self, d):
        n = self.name()
        self.labels.append(n)
        self.out.append(n + self.r.choice(["", ":", ":"]))

    def cond(self):
        r = self.r
        c = [r.choice(["0", "1"]), self.val() + ">" + self.val()]
        if self.labels:
            c.append(r.choice(self.labels) + "&" + r.choice(["1", "2", "4"]))
        if self.sets:
            c.append(r.choice(self.sets) + "<" + self.val())
        return r.choice(c)

    def k_if(self, d, c=None):
        if d <= 0:
            return
        self.put("if", arg=c or self.cond())
        save = list(self.labels), list(self.known), list(self.sets), list(self.macros)
        self.block(self.r.randint(0, 3), d - 1)
        if self.r.random() < .6:
            self.put("else")
            self.block(self.r.randint(0, 3), d - 1)
        self.put(self.r.choice(["endif", "eif"]))
        self.labels, self.known, self.sets, self.macros = save

    def k_iffwd(self, d):
        self.k_if(d, self.r.choice([self.fwd(), self.fwd() + "&1", self.fwd() + ">" + self.val()]))

    def k_ifconst(self, d):
        if d <= 0:
            return
        t = self.r.choice([self.fwd()] + self.labels[-2:] + ["never_defined"])
        self.put(self.r.choice(["ifconst", "ifnconst"]), arg=t)
        save = list(self.labels), list(self.known), list(self.sets), list(self.macros)
        self.block(self.r.randint(0, 2), d - 1)
        if self.r.random() < .5:
            self.put("else")
            self.block(self.r.randint(0, 2), d - 1)
        self.put("endif")
        self.labels, self.known, self.sets, self.macros = save

    def k_repeat(self, d):
        if d <= 0:
            return
        n = self.name()
        self.put("set", n, "0")
        self.sets.append(n)
        self.put("repeat", arg=self.small(3) if self.r.random() < .8 else self.fwd() + "&3")
        save = list(self.labels), list(self.known), list(self.macros), self.w.get("label"), self.w.get("equ")
        w, self.w = self.w, {k: v for k, v in self.w.items() if k in ("ins", "dc", "ds", "set", "if", "echo", "align", "hex")}
        self.w["set"] = self.w.get("set", 0) + 1
        keep = self.maybe_label
        self.maybe_label = lambda p: ""
        self.block(self.r.randint(1, 3), min(d - 1, 1))
        self.maybe_label = keep
        self.put("dc", arg=n + "&255")
        self.put("set", n, n + "+1")
        self.w = w
        self.put("repend")
        self.labels, self.known, self.macros = save[:3]

    def k_org(self, d):
        self.addr += self.r.choice([0x80, 0x100, 0x123, 0x200])
        if self.inrorg:
            return
        self.put("org", self.maybe_label(.3), "$%x" % self.addr + self.r.choice(["", "", ",%d" % self.r.randint(0, 255)]))

    def k_seg(self, d):
        if self.segs and self.r.random() < .5:
            self.put("seg", arg=self.r.choice(self.segs))
            return
        n = "S" + str(len(self.segs))
        self.segs.append(n)
        self.put("seg.u", arg=n)
        self.put("org", arg="$%x" % self.r.randint(0x80, 0xc0))
        self.put("ds", self.maybe_label(.9), self.small())
        self.put("ds", self.maybe_label(.9), self.small())
        self.put("seg", arg="code")

    def k_rorg(self, d):
        if self.inrorg:
            self.put("rend")
        else:
            self.put("rorg", self.maybe_label(.3), "$%x" % self.r.randint(0x2000, 0xf000))
        self.inrorg = not self.inrorg

    def k_macro(self, d):
        if d <= 0:
            return
        if self.macros and self.r.random() < .6:
            self.put(self.r.choice(self.macros), arg=",".join([self.val(), self.fwd()]))
            return
        n = "mac%d" % (len(self.macros) + self.r.randint(1, 9) * 10)
        if n in self.macros:
            return
        self.put(self.r.choice(["mac", "macro"]), arg=n)
        self.out += ["\tldx\t#{1}" if self.cpu == "6502" else "\tdc.b\t{1}", ".loc\tdc.w\t{2},.loc"]
        if self.r.random() < .4:
            self.out += ["\tif {1}>100", "\tmexit", "\tendif", "\tdc 7"]
        self.put("endm")
        self.macros.append(n)
        self.put(n, arg=self.val() + ", " + self.fwd())

    def k_echo(self, d):
        self.put("echo", arg=self.r.choice(['"text",' + self.val(), self.val(), self.fwd(), '"a","b"']))

    def k_sub(self, d):
        self.put("subroutine", self.maybe_label(.5))

    def k_local(self, d):
        self.put("subroutine")
        self.out += ["\tdc.w\t.fwd", ".here\tdc.w\t.here", ".fwd"]

    def k_dollar(self, d):
        n = self.name()
        self.labels.append(n)
        self.out += [n, "\tdc.w\t1$", "1$\tdc.w\t1$"]

    def k_hex(self, d):
        self.put("hex", self.maybe_label(.1), "".join("%02x" % self.r.randint(0, 255) for _ in range(self.r.randint(1, 5))))

    def k_list(self, d):
        self.put("list", arg=self.r.choice(["on", "off", "localoff", "localon"]))

    def k_err(self, d):
        self.put(self.r.choice(["lda (", "frob 1", "dc.b 256", "bne *+500", "lda #$100"]))

    def source(self, n, depth=2):
        self.put("processor", arg=CPUS[self.cpu])
        self.put("seg", arg="code")
        self.put("org", arg="$1000")
        self.block(n, depth)
        if self.inrorg:
            self.k_rorg(0)
        for n_, k in self.later:
            if self.undef and self.r.random() < self.undef / 4:
                continue
            if k == "label":
                self.out.append(n_)
                if self.r.random() < .5:
                    self.put("dc", arg=self.small())
            elif k == "zp":
                self.put("equ", n_, "$%02x" % self.r.randint(1, 255))
            else:
                self.put("equ", n_, "$%x" % self.r.randint(0, 0x3000))
        return self.out
