"""Programs at and beyond the limits: long lines, names, operands and data, deep nesting, missing and odd operands."""
from dasmlib import Prog
import props1
import props2
import props3

HEAD = " processor 6502\n org 8\n"


def sizes(rng):
    """Sizes around the powers of two and around the length of a line."""
    s = [rng.randint(1, 40), rng.randint(41, 500), rng.randint(500, 1000)]
    s += [p + rng.randint(-3, 3) for p in (32, 64, 128, 256, 512)]
    s += [rng.randint(990, 1030) for _ in range(3)]
    return s + [rng.choice([1100, 1500, 2047, 2048, 2100])]


def name(n, c="a"):
    return c * n


def long_lines(n, rng):
    """Programs with one thing of size n."""
    a = name(n, rng.choice("abxyZ_"))
    one = name(n, "1")
    yield a + " dc 1\n dc " + a + "\n"
    yield " " + a + " 1\n"
    yield " dc." + a + " 1\n"
    yield " dc " + a + "\n"
    yield " dc " + one + "\n"
    yield " dc %" + one + "\n"
    yield ' dc "' + a + '"\n'
    yield ' dc.w "' + a + '"\n'
    yield ' dc.l "' + a + '",1\n'
    yield ' echo "' + a + '"\n'
    yield a + " set 1\n echo " + a + "\n"
    yield " hex " + name(n, "a") + "\n"
    yield " hex " + name(n | 1, "a") + "\n"
    yield " mac " + a + "\n dc 1\n endm\n " + a + "\n"
    yield ' mac m\n echo "{1}"\n endm\n m ' + a + "\n"
    yield " mac m\n dc {1},{2}\n endm\n m " + one + ",1\n"
    yield " mac m\n dc {1}{1}\n endm\n m " + name(max(1, n // 2), "1") + "\n"
    yield ' include "' + a + '"\n'
    yield ' incbin "' + a + '"\n'
    yield ' incdir "' + a + '"\n include "x"\n'
    yield " seg " + a + "\n dc 1\n seg b\n org 99\n seg " + a + "\n dc 2\n"
    yield " processor " + a + "\n"
    yield "x eqm " + a + "\n dc x\n"
    yield "x eqm " + one + "\n dc x\n"
    yield 'x set "' + a + '"\n dc x\n'
    yield "x setstr " + a + "\n echo x\n"
    yield "x setstr " + a + "\ny setsym x\n"
    yield "x," + one + " dc 1\n"
    yield "x,1" + "+1" * (n // 2) + " dc 1\n"
    yield "x set 5,1" + "+1" * (n // 2) + ",7\n dc x&255\n"
    yield "q" + a + " dc 1\n if q" + a + " == 8\n ds 1\n endif\n"
    yield " ds [b-9]&1\n" + a + " dc 1\nb\n"
    yield " m\n mac m\n" + a + " set 1\n dc " + a + "\n endm\n m\n"
    yield " processor f8\n lr " + a + ",1\n"
    yield " processor 68hc11\n brset 1," + a + "\n"
    yield "x," + '"' + a + '"' + " set 5\n dc x" + a + "\n"
    yield " dc " + name(n, "[") + "1" + name(n, "]") + "\n"
    yield " dc " + name(n, "(") + "1" + name(n, ")") + "\n"
    yield " lda " + name(n, "(") + "1" + name(n, ")") + "\n"
    yield " dc " + name(n, "-") + "1\n"
    yield " dc " + name(n, "~") + "1\n"
    yield " dc 1" + "+1" * n + "\n"
    yield " dc 1" + "*1+1" * (n // 4) + "\n"
    yield " dc 1" + ",1" * n + "\n"
    yield " dc.w 1" + ",1" * n + "\n"
    yield " dc.l 1" + ",1" * n + "\n"
    yield ";" + a + "\n dc 1\n"
    yield name(n, rng.choice(" \t")) + "dc 1\n"
    yield " dc 1 ;" + a
    yield " dc 1 /*" + a + "*/\n dc 2\n"
    yield ' dc "' + a + "\n"
    yield name(n, "{") + "\n"
    yield " lda #" + a + "$\n"
    yield " lda (" + a + "\n"
    yield " bne " + a + "\n"
    yield a + " subroutine\n.a dc 1\n"
    yield a + " org 9\n dc 1\n"
    yield " if 1\n" * (n // 4 + 1) + " dc 1\n" + " endif\n" * (n // 4 + 1)
    yield " repeat 1\n" * (n // 4 + 1) + " dc 1\n" + " repend\n" * (n // 4 + 1)
    yield "f eqm ..+1\n dv f " + ",".join(["1"] * n) + "\n"
    yield "/*" * n + "*/" * n + "\n dc 1\n"
    yield a + ": ^b dc 1\n"
    yield " err " + a + "\n"
    yield " lda " + a + ",x\n"
    yield a + " = 5\n lda #" + a + "\n"


def chunks(what, n, per=200):
    """n elements in lists of at most per."""
    return [",".join([what] * min(per, n - i)) for i in range(0, n, per)]


def many(n, rng):
    """Programs with n of the same thing."""
    yield "x eqm 1\n" + "".join(" dc " + c + "\n" for c in chunks("x", n))
    yield "x eqm y\ny eqm 1\n" + "".join(" dc " + c + "\n" for c in chunks("x", n))
    yield " dc 1\n" + "".join(" dc " + c + "\n" for c in chunks("?", n, 8))
    yield "x eqm ?\n dc x\ny eqm 1+?\n dc y\n"
    yield "".join(' echo "%d%s"\n' % (i, name(400)) for i in range(n // 24))
    yield "".join(" dc u%d+\n" % i for i in range(n // 2))
    yield "".join("l%d\n" % i for i in range(n // 2)) + " dc l0\n"
    yield ".l\n" + "s subroutine\n.l dc <.l\n" * 1 + "".join("s%d subroutine\n.l dc <.l\n" % i for i in range(n // 6))
    yield " mac m\n dc 1\n endm\n" + " m\n" * (n // 3)
    yield " mac m\n dc {1}+{9}\n endm\n m " + ",".join(str(i % 10) for i in range(max(10, n // 3))) + "\n"
    yield " mac m\n dc {1}\n if {1}\n m {1}-1\n endif\n endm\n m %d\n" % rng.choice([0, 1, 29, 30, 31, 32, 33])
    yield "".join(" seg s%d\n org %d\n dc 1\n" % (i, 1000 - i if i % 2 else 1000 + i) for i in range(min(n // 8, 60)))
    yield "i set 0\n repeat %d\n dc <i\ni set i+1\n repend\n" % (n // 3)
    d = rng.choice([15, 16, 29, 30, 31, 32, 33, 40])
    yield "".join("x%d eqm 1+x%d\n" % (i, i + 1) for i in range(d)) + "x%d = 1\n dc x0\n" % d
    yield "".join("x%d eqm [x%d\n" % (i, i + 1) for i in range(d)) + "x%d = 1\n dc x0\n" % d
    yield "".join("x%d eqm x%d\n" % (i, i + 1) for i in range(d * 2)) + "x%d = 1\n dc x0\n" % (d * 2)
    yield " dc " + "1+[2*[" * (d // 2) + "1" + "]]" * (d // 2) + "\n"
    yield " dc " + "'a" * rng.choice([1, 2, 30, 61, 62, 63, 64, 65, 66, 100]) + "\n"
    yield " dc " + '"a"' * rng.choice([1, 2, 30, 61, 62, 63, 64, 65, 66, 100]) + "\n"
    yield " dc " + "[1]" * rng.choice([1, 2, 30, 61, 62, 63, 64, 65, 66, 100]) + "\n"
    yield "/*" + "\n" * n + "*/ dc 1\n"


def deep_files(depth):
    f = {"m.asm": HEAD + ' include "f0"\n dc 99\n'}
    for i in range(depth):
        f["f%d" % i] = " dc %d\n" % i + (' include "f%d"\n' % (i + 1) if i + 1 < depth else "") + "x%d\n" % i
    return f


ODD = [s + "\n" for s in
       ["%s" % w + (" " if o else "") + o
        for w in (" ds", " align", " org", " rorg", " repeat", " if", " ifconst", " hex", " echo", " seg", " include", " incbin", " incdir",
                  " subroutine", " list", " dc", " dc.l", "a set", "a =", "a setsym", "a setstr", "a eqm", " lda", " bne", " err", " processor")
        for o in ("", "1,", ",1", "$", '"', "'", "a", '"a"')
        if (w, o) not in ((" list", ""),)
        and not (w in ("a set", "a =", "a setsym", "a setstr", "a eqm") and o == '"')
        and not (w in (" include", " incbin", " incdir") and o in ("", '"', "'"))]] + [
    " mac m\n m\n endm\n m\n", " mac m\n n\n endm\n mac n\n m\n endm\n m\n", "x eqm x\n dc x\n", "x eqm y\ny eqm x\n dc x\n",
    ' dc "\xff\xfe"\n\xff\xff dc 1\n', "", " ds -1\n", " ds 70000\n", " align 0\n", " dv\n", " endm\n", " mexit\n", " repend\n", " eif\n",
    " if 1\n repend\n", " err\n", " repeat -1\n dc 1\n repend\n", " org -5\n dc 1\n", " lda -1\n lda $fffff\n",
    'a equ "x"\n if a\n endif\n lda a\n ds a\n org a\n rorg a\n align a\n repeat a\n repend\n', 'a set "abc"\nb set a+1\n echo b,a\n',
    " processor f8\n lr\n lr a\n lr a,\n ds\n outs\n li\n bf\n bt\n bt 1\n bf 1,\n lis\n dci\n pi\n", " processor 68hc11\n ldaa #1\n",
    " incbin \"m.asm\",-5\n", " incbin \"m.asm\",5000\n", " dc [-9223372036854775807-1]/-1\n", " dc [-9223372036854775807-1]%-1\n", " dc 1/0\n",
    " dc 1<<64, 1<<-1, 1>>99\n", " if 1\n", " repeat 2\n", " mac x\n", " else\n", " endif\n", "/*\n dc 1\n", " rend\n rend\n", " end\n dc 1\n"]


def mixed(rng):
    """A line of several long fields, near the length of a line altogether."""
    total = rng.choice([500, 512, 700, 1000, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1030])
    label = name(rng.choice([1, 10, 60, 64, 200, 250]), "L")
    op = rng.choice([" dc ", " dc.w ", " dc.l ", " lda #", "\tds ", " echo ", " set ", " eqm ", " = ", " seg ", " m ", " if ", " dv f "])
    left = total - len(label) - len(op)
    parts = []
    while left > 0:
        k = rng.choice([1, 2, 5, 20, 63, 64, 65, 100, 255, 256, 257])
        k = min(k, left)
        style = rng.randrange(6)
        parts.append(name(k, "1") if style == 0 else name(k, "u") if style == 1 else '"' + name(max(k - 2, 0), "q") + '"' if style == 2 else
                     "[" * (k // 2) + "1" + "]" * (k // 2) if style == 3 and k < 40 else "1+" * (k // 2) + "1" if style == 4 else "$" + name(k, "a"))
        left -= len(parts[-1]) + 1
    line = (label if op not in (" if ", " echo ", " seg ") else "") + op + ",".join(parts)
    line = line[:total] if rng.random() < .7 else line
    if op in (" set ", " eqm ", " = ") and line.count('"') % 2:
        line = line.replace('"', "q")
    after = rng.choice(["", " ;c", "\n dc 2", "\r"])
    return "f eqm ..+1\n mac m\n dc {1}\n endm\n" + line + after + "\n" + (" endif\n" if op == " if " else "")


def options(rng):
    return dict(fmt=rng.choice([1, 2, 3]), errfmt=rng.choice([0, 0, 1, 2]), sort=rng.choice([0, 0, 1]), strict=rng.random() < .2)


def gen_C21(rng, k):
    out = []
    for _ in range(k):
        fam = len(list(long_lines(5, rng)))
        per = [sizes(rng) for _ in range(fam)]
        for j in range(len(per[0])):
            for f in range(fam):
                n = per[f][j]
                if n > 600 and j < 8 and rng.random() < .5:
                    continue
                for g, t in enumerate(long_lines(n, rng)):
                    if g == f:
                        out.append(Prog(HEAD + t, **options(rng)))
        for t in ODD:
            out.append(Prog((HEAD if rng.random() < .9 else "") + t, **options(rng)))
        for _ in range(150):
            out.append(Prog(HEAD + mixed(rng), **options(rng)))
        for n in rng.choice([20, 90]), 320, 700, 1010, 1200:
            for t in many(n + rng.randint(-9, 9), rng):
                out.append(Prog(HEAD + t, **options(rng)))
        for n in (1, 20, 33, 60):
            out.append(Prog(deep_files(n), **options(rng)))
        for n in sizes(rng):
            n = min(n, 1000)             # longer names are cut in the symbol file
            a = name(n)
            out.append(Prog(HEAD + " dc 1\n", defs=["-D" + a + "=1"]))
            out.append(Prog(HEAD + " dc 1\n", defs=["-M" + a + "=1"]))
            out.append(Prog(HEAD + " dc x\n", defs=["-Dx=" + name(n, "1")]))
            out.append(Prog(HEAD + ' dc 1\n include "x"\n', defs=["-I" + a]))
    for mod in (props1, props2, props3):
        for g in sorted(x for x in dir(mod) if x[:4] in ("gen_", "more")):
            if g != "gen_C10":
                ps = getattr(mod, g)(rng, 1)
                out += rng.sample(ps, min(len(ps), 6 * k))
    return out
