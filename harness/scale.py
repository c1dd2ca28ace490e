"""Much of the same thing: many symbols, macros, sections, lines, arguments,
files; long names; deep nests.  What is looked for shows only from some number
on, so the sizes are drawn from both sides of powers of two and of ten."""

FAR = [1023, 1026, 2047, 2050, 4094, 4097, 4100, 4100, 8190, 8193, 8200, 10001, 16390]
SIZES = [3, 5, 8, 9, 11, 16, 17, 26, 32, 33, 40, 64, 65, 90, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 513]


def size(r, most, least=3):
    return r.choice([s for s in SIZES if least <= s <= most]) + (r.choice([0, 0, 0, 1, -1, 2]) if least > 3 else 0)


def name(r, n, k):
    """A name of n characters, which differs from its neighbours in few places"""
    s = list("abcdefghijklmnopqrstuvwxyz_0123456789."[r.randrange(8):] * (n // 30 + 1))[:n]
    s[0] = "n"
    at = r.choice([n - 1, n - 1, n // 2, 1]) if n > 1 else 0
    s[at] = "ghijklmnopqstz"[k % 14]
    return "".join(s)


def names(r, count, longest):
    n = max(2, size(r, longest))
    out = []
    for k in range(count * 3):
        nm = name(r, n - (r.random() < 0.2), k)
        if nm not in out:
            out.append(nm)
    return out[:count]


def symbols(r, most):
    n = size(r, most)
    ks = list(range(n))
    style = r.choice(["s%d", "s%d", "x%04d", "%dq".replace("%d", "v%d"), "L.%d", "_%d"])
    d = [(style % k) + r.choice([" equ %d" % (k * 7), " equ %d" % (k * 7), " set %d" % k, " fdb %d" % k, ""]) for k in ks]
    r.shuffle(d)
    u = [" fdb " + ",".join(style % r.choice(ks) for _ in range(6)) for _ in range(8)]
    cut = r.choice([0, 4, 8])
    e = r.choice([[], [" fdb " + style % n], [(style % r.choice(ks)) + " equ 1"], [" export " + style % k for k in ks if r.random() < 0.2]])
    return u[:cut] + d + e + u[cut:]


def long_names(r, most):
    ns = names(r, r.randrange(2, 6), most)
    ls = ["%s%s" % (x, r.choice([" equ %d" % (k + 1), " fcb %d" % k, " set %d" % k, ""])) for k, x in enumerate(ns)]
    r.shuffle(ls)
    ls += [" fdb %s" % x for x in ns] + [" export " + x for x in ns if r.random() < 0.5]
    if r.random() < 0.75:
        return ls
    ls += [" fdb " + r.choice([ns[0][:-1] or "q", ns[0] + "x", ns[0].upper(), ns[1]])] + [" export " + r.choice(ns)]
    return ls


def long_sections(r, most):
    ns = names(r, r.randrange(2, 5), most)
    ls = []
    for k in range(8):
        ls += [" section \"%s\"" % r.choice(ns)] + r.choice([[], [], [" org $%x" % (k * 256)]]) + [" fcb %d" % k, "1 fdb *,1B"]
    return ls


def long_macros(r, most):
    ns = names(r, r.randrange(2, 5), most)
    ls = []
    for k, x in enumerate(ns):
        ls += ["%s macro" % x, " fcb %d,\\1" % k] + ([" %s \\1+1" % ns[k + 1]] if k + 1 < len(ns) and r.random() < 0.4 else []) + [" endm" + r.choice(["", " \"%s\"" % x])]
    return ls + ["  %s %d" % (r.choice(ns + [x.upper() for x in ns[:r.random() < 0.1]]), k) for k in range(6)] + [" export " + r.choice(ns)]


def long_include(r, most):
    ns = names(r, r.randrange(2, 4), min(most, 100))
    return [" include \"%s\"" % r.choice(ns) for _ in range(4)], {x: " fcb %d\n" % k for k, x in enumerate(ns)}


def macros(r, most):
    n = size(r, most)
    ls = []
    for k in range(n):
        ls += ["m%d macro" % k, r.choice([" fdb %d,\\1", " fdb %d", " fdb %d,\\2,\\1"]) % k, " endm"]
    return ls + [" m%d %d,7" % (r.choice([0, n - 1, n // 2, r.randrange(n)]), k) for k in range(6)]


def calls(r, most):
    n = size(r, most)
    ls = ["m macro"] + r.choice([["1 fcb \\1", " fdb 1B"], [" fcb \\1", "l\\1 fdb *"], [" if \\1 % 3", " fcb \\1", " endif"], [" n \\1, 5"], ["s\\2 set \\1", " fcb s\\2"]]) + [" endm", "n macro", " fcb \\1,\\2", " endm"]
    return ls + [" m %d,q" % (k & 255) for k in range(n)] + [" fdb 1F", "1"]


def args(r, most):
    n = size(r, most)
    want = sorted(set(r.choice([1, n, n - 1, max(1, n // 2), 9, 10, n + 1, r.randrange(1, n + 1)]) for _ in range(5)))
    ls = ["m macro"] + [r.choice([" fcb \\{%d}", " fcc \"&{%d}\"", " fcb 1+\\{%d}", "n&{%d} fcb 1"]) % k for k in want] + [" endm"]
    return ls + [" m " + ",".join(str(r.choice([k, k % 10])) for k in range(n)), " fcb 77"]


def sections(r, most):
    n = size(r, most)
    ls = []
    for k in range(n):
        ls += [" section \"s%d\"" % k] + r.choice([[], [], [" org %d" % (k * 64)], [" put %d" % (k * 50)]]) + [r.choice([" fcb %d", "l%d fdb *", "1 fdb *+%d"]) % (k & 255)]
    for _ in range(6):
        ls += [" section \"s%d\"" % r.choice([0, n - 1, r.randrange(n)]), r.choice([" fcb 7", " fdb 1B", " lda <$1234", " rmb 3"])]
    return ls


def pieces(r, most):
    n = size(r, most)
    step = r.choice([3, 8, 40, 64])
    at = [100 + k * step for k in range(n)]
    r.shuffle(at)
    ls = []
    for k, a in enumerate(at):
        ls += [" %s %d" % (r.choice(["org", "org", "put"]) if k else "org", a), r.choice([" fcb %d", " fdb %d"]) % (k & 255)]
    if r.random() < 0.5:
        k = r.randrange(n)
        ls += [" org %d" % (at[k] + r.choice([-1, 0, 1, 2, -2])), " fcb 99"]
    return ls


def locals_(r, most):
    n = size(r, most)
    ls = []
    for k in range(n):
        ls.append("%d%s" % (k, r.choice(["", " fcb 1", " fdb *"])))
    for _ in range(12):
        at = r.randrange(len(ls) + 1)
        k = r.choice([0, n - 1, r.randrange(n)])
        there = [j for j, x in enumerate(ls) if x.split()[0] == str(k) and x[0] != " "][0]
        d = "BF"[there >= at] if r.random() < 0.98 else r.choice("BF")
        ls.insert(at, " fdb %d%s" % (k, d))
    return ls


def lines(r, most):
    """Errors, labels and PC far down a file, an included file or a macro"""
    n = size(r, most * 4)
    fill = [r.choice(["", " nop", "* c", " ; c", "q%d" % k]) for k in range(n)]
    tail = r.choice([[" lda #256"], [" bogus"], [" tfr a,x"], [" fdb nosuch"], [" fcb 1,"], ["e equ 1", "e equ 2"], [" bra *+200"], [" nop"]]) + [" fcb 1"]
    w = r.randrange(3)
    if w == 0:
        return fill + tail
    if w == 1:
        return fill[:n // 4] + [" include \"i.s\""] + tail, {"i.s": "\n".join(x for x in fill[n // 4:] + tail) + "\n"}
    return fill[:n // 3] + ["mm macro"] + [x for x in fill[n // 3:] if x[:1] in ("", " ")] + tail + [" endm", " mm", " nop"]


def errors(r, most):
    n = size(r, most)
    e = [" lda #256", " fdb nosuch", " tfr a,x", " bra *+300", " bogus", " pshs 5", " lda 5,q", " fcb \"s\"*0"]
    k = r.choice([1, 1, 2])
    es = r.sample(e, k)
    return [x for i in range(n) for x in ([r.choice(es)] if r.random() < 0.8 else [" nop"])]


def far(r, most):
    """Little, but far down a file or a macro"""
    n = r.choice(FAR)
    fill = [r.choice(["", "", "* c", " nop"])] * n
    a = ["1 fcb 1", "xx equ 5", "yy fdb *", "n macro", " fcb 9", " endm"]
    b = [" fdb 1B,xx,yy", " n", "2 fcb 2", " fdb 2B,2F", "2"] + r.choice([[], [" fdb nosuch"], [" bogus"], [" tfr a,x"], [" lda #256"], ["xx equ 5"], ["1 fdb 1B"]])
    for _ in range(r.choice([0, 3, 6, 6])):
        at = r.choice([0, 5, n - 5, n // 2, 10, 4090, r.randrange(n)])
        fill[min(at, n - 1)] = r.choice(["1 fcb 4", "1", "2", " fdb 1B", " fdb 1B", "1 fdb 1B", " fdb 2F", "2 fdb 2F"])
    w = r.randrange(5)
    if w == 0:
        return a + [" include \"i.s\""] + b, {"i.s": "\n".join(fill + r.choice([["1 fcb 3"], [" fdb 1B"]])) + "\n"}
    if w == 1:
        return a + ["mm macro"] + fill[:4100] + [" fcb 7"] + b[-1:] + [" endm", " mm", "1 fcb 3"] + b
    if w == 2:
        c = r.choice(["0", "1", "xx-5", "xx"])
        return a + [" if " + c] + fill + [" fcb 3", " else"] + fill[:100] + [" fcb 4", " endif"] + b
    return a + fill + b


def macro_lines(r, most):
    n = size(r, most)
    k = r.choice([n - 1, n - 1, n // 2])
    ls = ["mm macro"] + [(" fcb %d,\\1" % (j & 255) if j == k else r.choice(["", " nop", "; c %d" % j, " fcb %d" % (j & 255)])) for j in range(n)] + [" endm", " mm 5", " export mm"]
    return ls + (["nn macro", " mm \\1", " endm", " export nn", " nn 3"] if r.random() < 0.5 else [])


def strings(r, most):
    ls = []
    for _ in range(4):
        n = r.choice([size(r, 513), r.choice([250, 255, 256, 257, 260, 500, 511, 512, 513, 1000, 1023, 1025, 2000, 4096])])
        c = "".join(chr(32 + (j * r.choice([7, 7, 1])) % 95).replace('"', "q").replace("\\", "b").replace("&", "n").replace("/", "s") for j in range(n))
        ls.append(" %s \"%s\"%s" % (r.choice(["fcc", "fcv", "fci", "fcn", "fcb", "fcs", "fcc"]), c, r.choice(["", "", ",1", ",\"ab\""])))
    return ls + [" fdb *"]


def ifs(r, most):
    n = size(r, most)
    if r.random() < 0.5:
        d = min(n, 130)
        return [" if %d" % (r.random() < 0.97) for _ in range(d)] + [" fcb 1"] + [x for k in range(d) for x in r.choice([[" endif"], [" else", " fcb %d" % k, " endif"], [" elsif 1", " fcb %d" % (k & 255), " endif"]])] + [" fcb 2"] + r.choice([[], [], [" endif"], [" if 1"]])
    if r.random() < 0.5:
        at = r.choice([0, n - 1, r.randrange(n), n])
        return [" if 0"] + [x for k in range(n) for x in (" elsif %d" % (k == at), " fdb %d" % k)] + [" else", " fdb $eeee", " endif", " fcb 9"]
    return [x for k in range(n) for x in (" if %d" % r.randrange(2), " fdb %d" % k, " endif")]


def expressions(r, most):
    n = size(r, most)
    k = r.randrange(7)
    if k == 6:
        ls = []
        for j in range(4):
            m = r.choice([n, r.choice([30, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257])])
            a = "".join(chr(97 + (i * 7 + j) % 26) for i in range(m))
            at = r.choice([m - 1, m - 1, m // 2, r.randrange(m), 0])
            b = r.choice([a, a[:at] + "Z" + a[at + 1:], a[:at] + "Z" + a[at + 1:], a[:-1], a + "x", a[:at] + "Z", a[:at] + "Z" + a[at + 1:] + "x"])
            ls += [" fcb \"%s\" %s \"%s\"" % (a, r.choice(["==", "!=", "==", "<", ">=", "+"]), b), " fqb \"%s\" + 1" % a]
        return [" fcb 1"] + [l for l in ls if r.random() < 0.8]
    if k == 0:
        e = "+".join(str(r.randrange(1000)) for _ in range(n))
    elif k == 1:
        d = min(n, 200)
        e = "(" * d + "1" + "".join(r.choice([")", "+1)", "*2)", "-3)"]) for _ in range(d))
    elif k == 2:
        e = "".join(r.choice("-~!+") for _ in range(min(n, 200))) + "5"
    elif k == 3:
        e = "".join("%d?%d:" % (r.random() < 0.1, j) for j in range(min(n, 150))) + "7"
    elif k == 4:
        e = "".join("%d%s" % (r.randrange(1, 99), r.choice(["+", "-", "*", "|", "^", "&", "<", "==", "&&", "||"])) for _ in range(min(n, 250))) + "1"
    else:
        e = "s%d" % min(n, 200)
        return ["s%d equ %s" % (j + 1, r.choice(["s%d+1" % j, "s%d*3" % j, "(s%d)" % j, "s%d^5" % j])) for j in range(min(n, 200))] + ["s0 equ 1", " fqb " + e]
    return [" fqb " + e, " fcb 1"]


def data(r, most):
    n = size(r, most)
    k = r.randrange(5)
    if k == 0:
        return [" %s " % r.choice(["fcb", "fdb", "fqb"]) + ",".join(str(r.randrange(70000) if r.random() < 0.3 else j & 255) for j in range(n)), " fcb 1"]
    if k == 1:
        return [" %s \"%s\"" % (r.choice(["fcc", "fcv", "fci", "fcn", "fcb", "fcs"]), "".join(chr(32 + (j * 7) % 95).replace('"', "q").replace("\\", "b").replace("&", "n") for j in range(n))), " fcb 1"]
    if k == 2:
        return [" rzb %d" % n, " rmb %d" % size(r, 513), " fill 7,%d" % size(r, 513), " align %d,%d" % (size(r, 513), r.randrange(256)), " fdb *"]
    if k == 3:
        return [" fcb %d" % (j & 255) for j in range(n)] + [" fdb *"]
    return [" fcb \"%s\"," % ("z" * n) + ",".join("\"%s\"" % ("y" * (j % 5 + 1)) for j in range(min(n, 40))), " fdb *"]


def code(r, most):
    n = size(r, most)
    ls = [" org $%x" % r.choice([0, 0x80, 0x1000])]
    for k in range(n):
        ls.append(r.choice([" nop", " lda $%x" % r.randrange(600), " ldd #%d" % k, " bra *+%d" % r.randrange(2, 120), " lbra l%d" % r.randrange(n), " lbeq l%d" % r.randrange(n), "l%d leax %d,x" % (k, r.choice([0, 5, 20, 200])),
                            "l%d" % k, " stx [l%d,pcr]" % r.randrange(n), " pshs a,b"]))
    have = {x.split()[0] for x in ls if x[0] == "l"}
    return ls + ["l%d" % k for k in range(n) if "l%d" % k not in have]


def exports(r, most):
    n = size(r, most)
    ls = []
    for k in range(n):
        ls += r.choice([["e%d equ %d" % (k, k * 1000)], ["e%d" % k, " nop"], ["e%d set -%d" % (k, k)], ["e%d macro" % k, " fcb %d,\\1" % (k & 255), " endm"]])
        if r.random() < 0.7:
            ls.insert(r.randrange(len(ls) + 1) if r.random() < 0.0 else len(ls), " export e%d" % k)
    return ls


def included(r, most):
    n = min(size(r, most), 60)
    fs = {"i%d.s" % k: " fcb %d\nx%d equ %d\n%s" % (k, k, k, r.choice(["", "", " end\n fcb 5\n", "1 fdb 1B\n"])) for k in range(n)}
    return [" include \"i%d.s\"" % r.randrange(n) if r.random() < 0.1 else " include \"i%d.s\"" % k for k in range(n)] + [" fdb x%d,x0" % (n - 1)], fs


def sets(r, most):
    n = size(r, most)
    return ["p set 0", "t set 1"] + [r.choice(["p set p+1", "t set t*2&$ffff", " fcb p", "p set t-p"]) for _ in range(n)] + [" fdb p,t"]


SCALE = {
    "C01": [symbols, code, expressions], "C02": [code], "C03": [code, long_sections], "C04": [code, locals_], "C05": [expressions, data], "C06": [far, ifs, calls],
    "C07": [macro_lines, macros, calls, args, long_macros], "C08": [far, locals_, calls, long_sections], "C09": [symbols, long_names, sets], "C10": [far, sections, long_sections, data, pieces],
    "C11": [pieces, data, sections], "C12": [pieces, sections], "C13": [strings, data], "C14": [far, macro_lines, lines, code, calls, data], "C15": [macro_lines, exports, long_names, long_macros], "C16": [far, lines, errors, macros, long_names],
    "C17": [far, included, long_include, lines], "C18": [symbols], "C19": [code, exports], "C20": [errors],
}


def programs(prop, r, count, most):
    """(id, lines, further files)"""
    fs = SCALE[prop]
    for i in range(count):
        f = fs[i % len(fs)]
        x = f(r, most)
        ls, files = x if isinstance(x, tuple) else (x, {})
        yield "scale-%s-%d" % (f.__name__.strip("_"), i), ls, files
