"""For each property, the programs on which it is decided.

Each profile is a function of a random source and an amount of work that
yields cases.  Everything random comes from the source; what is enumerated
completely is the same in every run.
"""

import itertools
import random

from common import Case, Run
from gen import EDGE, G, ISA, OPLIST, REGS, SIGNED, text
import scale
import small
from programs import Program, program
from soup import soup

FMT = {"B": ["-B", "--bin"], "D": ["-D", "--dragondos"], "C": ["-C", "--coco"], "S": ["-S", "--srec"],
       "H": ["-H", "--hex"]}


def run(isa=6809, fmt="S", out=True, lst=True, sym=False, exp=False, extra=(), files=("a.s",), cannot=()):
    a = []
    if isa == 6309:
        a.append("-3")
    a.append("-" + fmt)
    if out:
        a += ["-o", "x.out"]
    if lst:
        a += ["-l", "x.lis"]
    if sym:
        a += ["-s", "x.sym"]
    if exp:
        a += ["-E", "x.exp"]
    return Run(a + list(extra) + list(files), cannot)


def one(id, lines, isa=6809, extra=(), fmt="S", sym=False, exp=False, files=None, more=(), note=None, bins=None):
    """A case of one source file; more: further formats to write."""
    fs = dict(files or {})
    fs["a.s"] = lines if isinstance(lines, (str, bytes)) else text(lines)
    runs = [run(isa, fmt, True, True, sym, exp, extra)]
    runs += [run(isa, f, True, False, False, False, extra) for f in more]
    return Case(id, fs, runs, bins, note)


def isas(i):
    return [6809, 6309][i % 2]


def chunks(xs, n):
    xs = list(xs)
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


ALL = ["if", "macro", "local", "section", "org", "set", "equ", "dp", "include", "end", "export"]


# --- C01 ---------------------------------------------------------------------

def cascade(g, k):
    """Forward references that take k+1 passes, and one more to see that nothing changed"""
    names = ["c%d" % i for i in range(k + 1)]
    ls = [g.line(names[i], "equ", "%s+%d" % (names[i + 1], g.r.randrange(3))) for i in range(k)]
    ls.append(g.line(names[k], "equ", g.num(g.value())))
    ls.append(g.line("", "fdb", names[0]))
    return ls


def sized(g, n):
    """Instructions whose size depends on addresses that depend on their size"""
    page = g.pick([0, 0, 1, 2, 0x10])
    ls = [g.line("", "setdp", str(page)) if g.chance(0.8) else "",
          g.line("", "org", "$%x" % (page * 256 + 256 - g.r.randrange(0, 3 * n + 4)))]
    syms = ["p%d" % i for i in range(n)]
    for i in range(n):
        lab = syms[i] if g.chance(0.8) else ""
        s = g.pick(syms)
        k = g.r.randrange(8)
        if k < 3:
            ls.append(g.line(lab, g.pick(["lda", "stx", "inc", "jmp", "ldy"]), g.near(s) if g.chance(0.3) else s))
        elif k < 5:
            ls.append(g.line(lab, "lda", "%s-%s,x" % (s, g.pick(syms))))
        elif k == 5:
            ls.append(g.line(lab, "ldd", "%s,pcr" % s))
        elif k == 6:
            ls.append(g.line(lab, "rmb", "(%s-%s) & %d" % (s, g.pick(syms), g.pick([1, 3, 15]))))
        else:
            ls.append(g.line(lab, "fdb", s))
        if lab == "":
            ls.append(syms[i])
    return ls


def unstable(g):
    """Programs at the edge of having a solution"""
    k = g.r.randrange(8)
    v = g.pick([1, 3, 8, 200])
    if k == 0:
        return ["p", " org $%x" % (0x100 - g.r.randrange(4)), " lda q", " if q %s $%x" % (g.pick("<>"), 0x102 + g.r.randrange(4)),
                " rzb %d" % v, " endif", "q nop"]
    if k == 1:
        return ["u equ w+1", "w equ u+1", " fdb u,w"]
    if k == 2:
        return [" org q+%d" % g.pick([0, 1, -1]), "q nop"]
    if k == 3:
        return [" rmb q-*", "p nop", "q equ p+%d" % g.r.randrange(3)]
    if k == 4:
        return [" section \"one\"", " rmb q&15", " section \"two\"", "q nop", " section \"one\"", " nop", "r equ *", " fdb q,r"]
    if k == 5:
        return ["s1 set 1", " fdb s1,t1", "s1 set s1+1", "t1 equ s1", " rmb t1", "q", " fdb q"]
    if k == 6:
        return ["p", " if q-p > %d" % v, " rzb 1", " else", " rzb %d" % (v + 2), " endif", "q"]
    return ["t equ q", " org $200", "1 rmb t&7", " bra 1B", "q equ *-1B", " lda 1F,pcr", " rmb 125", "1 nop"]


def lagging(h):
    """A label moves in the second pass; symbols defined from it, in the wrong
    order, each follow a pass later, and with part of its value only"""
    k = h.pick([1, 1, 2, 2, 3, 5])
    fs = ["{}<<32", "{}<<16", "{}<<8", "{}<<48", "{}*65536", "-{}", "{}&1", "{}&2", "{}>>1", "{}%7", "{}*0.1", "{}/3", "{}*1.5", "{}", "{}", "{}|$20",
          "({}&1)==0", "{}<$18", "~{}", "{}^5", "{}/64.0"]
    last = ["({}&1)?\"ab\":\"ac\"", "({}&1)?\"ab\":\"abc\"", "({}&1)?x:y", "({}&1)?1:\"a\"", "({}&1)?2:2.0", "({}&2)?5:5.5"]
    use = h.pick([" fqb t0>>32", " fqb t0", " fdb t0>>16,t0", " if t0&1", " fcb t0", " fqb t0>>32,t0", " rzb t0&3", " ldd #t0", " fqb t0*1000"])
    top = h.pick(fs)
    if h.chance(0.3):
        top = h.pick(last)
        use = h.pick([" fcc t0", " leax ,t0", " fcb t0", " fdb t0*10"])
    defs = ["t%d %s %s" % (j, h.pick(["equ", "equ", "equ", "set"]), (top if j == 0 else h.pick(fs)).format("t%d" % (j + 1))) for j in range(k)]
    if h.chance(0.2):
        h.r.shuffle(defs)
    move = [h.pick([" lda low", " lda low", " lda low", " ldx far", " jmp low", " leax low-5,x", " leax [low,pcr]"]) for _ in range(h.pick([1, 2, 3, 4, 6]))]
    return ([" org $%x" % h.pick([0x10, 0, 0x11, 0x40]), " setdp 0", use] + ([" nop", " endif"] if " if" in use else []) + defs + move
            + ["t%d" % k + h.pick(["", " fcb 1", " equ *", " equ *-$10"]), "low equ $%x" % h.pick([0x20, 0x90, 6]), "far equ $1234"])


ALIKE = [("\"aaaabbbb\"", "\"aaaac\""), ("\"ab\"", "\"ac\""), ("\"abc\"", "\"ab\""), ("\"%s1\"" % ("k" * 40), "\"%s2\"" % ("k" * 40)), ("\"aB\"", "\"ab\""), ("\"\"", "\"a\""),
         ("\"12345678\"", "\"12345679\""), ("\"xabcd\"", "\"yabcd\""), ("1.5", "1.75"), ("0.1", "0.2"), ("2", "2.0"), ("1.0001", "1.0002"), ("5", "\"5\""), ("x", "y"), ("x", "u"),
         ("4294967296", "0"), ("65536", "0"), ("-1", "65535"), ("256", "0"), ("1", "2"), ("0.25", "-0.25"), ("-1", "1"), ("$8000", "-$8000"), ("97", "\"a\""), ("3", "x")]


def drifting(h):
    """Symbols that are copies of one whose value, of any kind, changes to one
    much like it in a late pass"""
    a, b = h.pick(ALIKE)
    if h.chance(0.5):
        a, b = b, a
    n, m = h.r.randrange(0, 4), h.r.randrange(0, 4)
    word = lambda: h.pick(["equ", "equ", "equ", "set"])
    head = h.pick([" if v0", " if v0", " if v0 > 0"])
    ch = ["s%d %s s%d" % (i, word(), i + 1) for i in range(n)]
    top = [head, "s%d equ %s" % (n, a), " else", "s%d equ %s" % (n, b), " endif"] if h.chance(0.6) else ["s%d %s v0 ? %s : %s" % (n, word(), a, b)]
    vs = ["v%d equ v%d" % (i, i + 1) for i in range(m)] + ["v%d equ 1" % m]
    num = not any(q in (a, b) for q in ("x", "y", "u"))
    use = [h.pick([" fcc s0", " fdb s0", " fqb s0>>8", " fqb s0*100", " fcc s0,\"s\"", " fcb s0 == %s" % a] if num else [" leax 5,s0", " leax ,s0", " pshs s0"])]
    parts = [ch, top, vs, use]
    if h.chance(0.5):
        h.r.shuffle(parts)
    return sum(parts, [])


def c01(g, work):
    for i in range(int(90 * work)):
        h = G(g.r.random())
        ls = drifting(h)
        for p in h.pick([[12], [12], [3, 4], [2, 5], [6]]):
            yield one("drift-%d-%d" % (i, p), ls, extra=["-P", str(p)], sym=True)
    for i in range(int(60 * work)):
        h = G(g.r.random())
        ls = lagging(h)
        for p in h.pick([[12], [12], [3], [2, 4], [5]]):
            yield one("lagging-%d-%d" % (i, p), ls, extra=["-P", str(p)], sym=True)
    for i in range(0, 14):
        for p in sorted({2, 3, i, i + 1, i + 2, i + 3, 12} & set(range(2, 30))):
            yield one("cascade-%d-%d" % (i, p), cascade(G(g.r.random()), i), extra=["-P", str(p)], sym=True)
        yield one("cascade-%d" % i, cascade(G(g.r.random()), i), sym=True)
    for i in range(int(170 * work)):
        h = G(g.r.random(), isas(i))
        ls = sized(h, h.pick([3, 6, 12, 25]))
        for p in h.pick([[12], [2, 3, 4], [5, 6, 12], [255]]):
            yield one("sized-%d-%d" % (i, p), ls, h.isa, ["-P", str(p)], sym=True)
    for i in range(int(60 * work)):
        h = G(g.r.random())
        ls = unstable(h) + (unstable(h) if h.chance(0.2) else [])
        for p in (3, h.pick([2, 5, 12, 20])):
            yield one("unstable-%d-%d" % (i, p), ls, extra=["-P", str(p)], sym=True)
    for i in range(int(120 * work)):
        h = G(g.r.random())
        ls, files, _ = program(g.r.random(), isas(i), h.pick([10, 25, 50]), ALL)
        for p in h.pick([[12], [2, 3], [4]]):
            yield one("mixed-%d-%d" % (i, p), ls, isas(i), ["-P", str(p)], sym=True, files=files)


# --- C02 ---------------------------------------------------------------------

INDEXED = ([",{r}", "0,{r}", ",{r}+", ",{r}++", ",-{r}", ",--{r}", "a,{r}", "b,{r}", "d,{r}",
            "[,{r}]", "[,{r}++]", "[,--{r}]", "[a,{r}]", "[b,{r}]", "[d,{r}]"]
           + ["%d,{r}" % n for n in (1, 15, 16, -1, -16, -17, 127, 128, -128, -129, 32767, -32768)]
           + ["[%d,{r}]" % n for n in (1, -16, 127, 128, -128, -129, 4660)]
           + ["<<5,{r}", "<5,{r}", ">5,{r}", "<-3,{r}", ">-3,{r}", "[<5,{r}]", "[>5,{r}]"])
INDEXED6309 = ["e,{r}", "f,{r}", "w,{r}", "[e,{r}]", "[f,{r}]", "[w,{r}]"]
INDEXEDPC = ["5,pc", "127,pc", "-128,pc", "128,pc", "-129,pc", "<5,pc", ">5,pc", "[5,pc]", "[300,pc]", "*+20,pcr",
             "*-20,pcr", "*+1000,pcr", "[*+20,pcr]", "[*-1000,pcr]", ">*+5,pcr", "[>*,pcr]", ",pc", ",pcr", "[,pcr]",
             "[$1234]", "[5]"]
INDEXEDW = [",w", ",w++", ",--w", "300,w", "-1,w", "[,w]", "[,w++]", "[,--w]", "[5,w]"]
ADDRESSES = ["0", "$12", "$ff", "$100", "$1234", "$ffff", "<$12", "<$1234", ">$12", ">$1234", "-1", "65536+5"]


def shapes(isa, e):
    """Operands that an instruction has, as text"""
    k = e["k"]
    idx = []
    for t in INDEXED + (INDEXED6309 if isa == 6309 else []):
        idx += [t.format(r=r) for r in ("x", "y", "u", "s")]
    idx += INDEXEDPC + (INDEXEDW if isa == 6309 else [])
    mem = (ADDRESSES if e["dir"] >= 0 else []) + (idx if e["idx"] >= 0 else [])
    if e["dir"] < 0 and e["ext"] < 0 and e["idx"] >= 0:
        mem = idx
    if k == "inh":
        return [""]
    if k == "imm8":
        imm = ["#0", "#$7f", "#$80", "#255", "#-1", "#-128", "#'A", "#<$1234", "#$1234"]
        return imm + mem
    if k == "imm16":
        return ["#0", "#1", "#$7fff", "#$8000", "#-1", "#65535", "#'A", "#$12345"] + mem
    if k == "imm32":
        return ["#0", "#$12345678", "#-1", "#$ffffffff", "#$80000000"] + mem
    if k == "mem":
        return mem
    if k in ("rel8", "rel16"):
        ds = [-126, -1, 0, 1, 2, 129, 100, -100]
        if k == "rel16":
            ds += [-127, 130, 1000, -1000, 32767]
        return ["*%+d" % d for d in ds] + ([">*+5"] if k == "rel16" else [])
    if k in ("stks", "stku"):
        rs = ["cc", "a", "b", "dp", "x", "y", "u" if k == "stks" else "s", "pc"]
        return [",".join(r for i, r in enumerate(rs) if n >> i & 1) for n in range(1, 256)] + ["d", "d,x", "a,d", "pc,d,cc"]
    if k == "pair":
        rs = [r for r in REGS[isa] if r not in ("pcr", "q")]
        ps = ["%s,%s" % (a, b) for a in rs for b in rs]
        return ps + (["0,%s" % r for r in rs] + ["%s,0" % r for r in rs] if isa == 6309 else [])
    if k == "tfm":
        rs = ["d", "x", "y", "u", "s"]
        return [m % (a, b) for m in ("%s+,%s+", "%s-,%s-", "%s+,%s", "%s,%s+") for a in rs for b in rs]
    if k == "regmem":
        return ["%s,%d,%d,%s" % (r, i, j, a) for r in ("cc", "a", "b") for i in range(8) for j in range(8)
                for a in ("$12", "<$34")]
    if k == "immmem":
        return ["%s,%s" % (v, m) for v, m in zip(itertools.cycle(["#$12", "#0", "#255", "$34", "#-1"]), mem)]
    raise ValueError(k)


def instruction_lines(isa, pick, g=None):
    """One line for each mnemonic and chosen shape"""
    for op in OPLIST[isa]:
        e = ISA[isa][op]
        for t in pick(op, shapes(isa, e)):
            if g is None:
                yield " %s %s" % (op, t)
            else:
                yield g.line("", op, t)


def c02(g, work):
    h = G(g.r.random())
    if work < 5:
        def pick(op, ts):
            return h.r.sample(ts, min(len(ts), int((25 if len(ts) < 300 else 40) * work)))
    else:
        def pick(op, ts):
            return ts
    for isa in (6809, 6309):
        if work < 5 and isa == 6809:
            ops = h.r.sample(OPLIST[isa], 40)
            ls = [l for l in instruction_lines(isa, lambda op, ts: pick(op, ts) if op in ops else ts[:1], h)]
        else:
            ls = list(instruction_lines(isa, pick, h))
        h.r.shuffle(ls)
        for i, part in enumerate(chunks(ls, 40)):
            org = h.pick([0, 0x100, 0x1f80, 0x7ff0, 0xc000, 0xf000])
            dp = h.pick([[], [" setdp 0"], [" setdp $12"], [" setdp $ff"], [" setdp 1"]])
            yield one("isa%d-%d" % (isa, i), [" org $%x" % org] + dp + part, isa)
    for i in range(int(60 * work)):
        h = G(g.r.random(), isas(i))
        syms = ["v%d" % k for k in range(6)]
        ls = ["%s equ %s" % (s, h.num(h.value())) for s in syms[:4]] + [" org $%x" % h.r.randrange(0, 0xc000)]
        ls += [h.instruction("", syms) for _ in range(30)]
        ls += ["%s equ %s" % (s, h.num(h.value())) for s in syms[4:]]
        yield one("random-%d" % i, ls, h.isa)


# --- C03 ---------------------------------------------------------------------

OFFSETS = sorted({s * n + d for s in (1, -1) for n in (0, 15, 16, 127, 128, 255, 256, 32767, 32768, 65535) for d in (-1, 0, 1)})
PAGES = [0, 1, 0x12, 0x7f, 0x80, 0xff]


def c03(g, work):
    h = G(g.r.random(), 6309)
    memops = [o for o in OPLIST[6309] if ISA[6309][o]["dir"] >= 0 and ISA[6309][o]["k"] in ("mem", "imm8", "imm16", "imm32", "immmem")]
    idxops = memops + ["leax", "leay", "leas", "leau"]

    def operand(op, t):
        return ("#$5a," + t) if ISA[6309][op]["k"] == "immmem" else t
    # offsets x registers x prefix x indirection, written as number, symbol and forward reference
    combos = [(o, r, p, i, w) for o in OFFSETS for r in ("x", "y", "u", "s", "pc") + (("w",) if True else ())
              for p in ("", "<<", "<", ">") for i in (0, 1) for w in (0, 1, 2)]
    combos = [c for c in combos if not (c[1] == "w" and c[2] in ("<<", "<")) and not (c[2] == "<<" and (c[3] or c[1] == "pc"))]
    if work < 5:
        combos = h.r.sample(combos, int(1500 * work))
    for i, part in enumerate(chunks(combos, 30)):
        syms = {}
        body, fwd, pre = [], [], []
        for o, r, p, ind, w in part:
            t = h.num(o)
            if w:
                t = syms.setdefault((o, w), "s%d_%d" % (len(syms), w))
            op = h.pick(idxops)
            t = "%s%s,%s" % (p, t, h.anycase(r))
            body.append(h.line("", op, operand(op, "[%s]" % t if ind else t)))
        for (o, w), s in syms.items():
            (pre if w == 1 else fwd).append(h.line(s, "equ", h.num(o)))
        yield one("offset-%d" % i, pre + [" org $2000"] + body + fwd, 6309)
    # addresses x direct page x prefix
    combos = [(pg, a, p, w) for pg in [-1] + PAGES for a in sorted({x * 256 + d for x in PAGES for d in (-1, 0, 1, 0x55, 0xff, 0x100)} | {-1, 65536, 65535 + 256})
              for p in ("", "<", ">") for w in (0, 1, 2)]
    if work < 5:
        combos = h.r.sample(combos, int(700 * work))
    for i, part in enumerate(chunks(combos, 30)):
        body, fwd, pre, syms = [], [], [], {}
        page0 = part[0][0]
        extra = [] if h.chance(0.5) else ["--setdp", h.pick(["%d" % page0, "$%x" % max(0, page0)])] if page0 >= 0 else []
        cur = None if not extra else page0
        for pg, a, p, w in part:
            if pg != cur:
                body.append(h.line("", "setdp", h.num(pg)))
                cur = pg
            t = h.num(a)
            if w:
                t = syms.setdefault((a, w), "s%d_%d" % (len(syms), w))
            op = h.pick(memops)
            body.append(h.line("", op, operand(op, p + t)))
        for (a, w), s in syms.items():
            (pre if w == 1 else fwd).append(h.line(s, "equ", h.num(a)))
        yield one("page-%d" % i, pre + [" org $2000"] + body + fwd, 6309, extra)
    # offsets are not addresses: the direct page does not bear on them, nor the program counter
    near = [(o, pg) for o in sorted({s * n + d for s in (1, -1) for n in (0, 16, 16, 128, 256, 32768) for d in (-1, 0, 1)}) for pg in [-1] + PAGES for _ in range(3 if -18 < o < 17 else 1)]
    h.r.shuffle(near)
    for i, part in enumerate(chunks(near, 14)):
        ls = [" org $%x" % h.pick([0x80, 0x2000, 0x7ff0, 0x8000, 0xff00, 0x1200])]
        for o, pg in part:
            t = h.pick(["%d", "%d", "(%d)", "%d.0", "%d-1+1", "*-*+(%d)", "65536+(%d)", "\"a\"-97+(%d)", "4294967296+(%d)", "%d+0.5"]) % o if h.chance(0.6) else "o%d" % (o + 40000)
            if t[0] == "o":
                ls.append(h.pick(["%s equ %d", "%s equ %d.0", "%s set %d"]) % (t, o) if not any(l.startswith(t + " ") for l in ls) else "")
            ls += [h.line("", "setdp", h.num(pg)), " %s %s" % (h.pick(["lda", "leax", "std", "jmp", "ldy"]), h.pick(["%s,x", "%s,y", "%s,u", "[%s,s]", "%s,pc", "%s,s"]) % t)]
        yield one("dp-offset-%d" % i, ls, 6309)
    # program-relative operands near and about the ends of memory
    for i in range(int(110 * work)):
        pc = h.pick([0, 0, 5, 0x70, 0x7f, 0x80, 0x7f00, 0x7ff0, 0x8000, 0x8010, 0xff00, 0xff70, 0xff80, 0xffe0, 0xfff0, 0xfff8, 0x1000])
        ls = [" org $%x" % pc]
        for k in range(h.pick([1, 2, 4])):
            t = pc + h.pick([0x80, -0x80, 0x8000, 0x8000, -0x8000, 0, 0x7f, 0x40, -0x40, 0x100]) + h.r.randrange(-6, 10)
            t = h.pick([t & 0xffff, t & 0xffff, t, t - 0x10000, t + 0x10000])
            w = h.pick(["%d" % t, "%d" % t, "t%d" % k, "(%d)" % t, "*%+d" % (t - pc)])
            if w[0] == "t":
                ls.insert(0, "t%d equ %d" % (k, t)) if h.chance(0.5) else ls.append("t%d equ %d" % (k, t))
            w = h.pick(["%s,pcr", "%s,pcr", "[%s,pcr]", "<%s,pcr", ">%s,pcr", "[<%s,pcr]", "%s,PCR", "%s,pc"]) % w
            ls.append(" %s %s" % (h.pick(["lda", "leax", "ldy", "jsr", "cmps", "ldq", "std"]), w))
        yield one("pcr-%d" % i, ls, 6309, extra=["-P", "6"])
    # prefixes that are for other modes or other instructions: an error hides the next, so few at a time
    anyops = [o for o in OPLIST[6309] if ISA[6309][o]["k"] in ("mem", "imm8", "imm16", "imm32", "immmem", "lea", "idx")]
    for i in range(int(120 * work)):
        six = h.chance(0.6)
        pg = h.pick([-1, 0, 0, 1, 2, 0xff])
        ls = [" setdp %s" % h.num(pg)] if pg or h.chance(0.5) else []
        for _ in range(h.pick([1, 2])):
            op = h.pick([o for o in anyops if six or o in ISA[6809]])
            t = h.pick(["<<", "<<", "#", "#", "<", ">"]) + h.num(h.pick([pg * 256 + h.r.randrange(256), 5, 0, 0x1234, 256 * h.r.randrange(4) + 3]) & 0xffff) + h.pick(["", "", "", ",x", ",pc", ",pcr"])
            ls.append(h.line("", op, operand(op, t if h.chance(0.85) else "[%s]" % t)))
        yield one("odd-%d" % i, ls, 6309 if six else 6809, extra=h.pick([[], ["-v"]]))
    # the direct page is a section's own
    for i in range(int(60 * work)):
        h = G(g.r.random(), 6309)
        names = ["one", "two", "three"]
        ls, known = [], []
        extra = ["--setdp", str(h.r.randrange(4))] if h.chance(0.5) else []
        for _ in range(h.r.randrange(4, 14)):
            k = h.r.randrange(3)
            if k == 0:
                ls.append(h.line("", "section", "\"%s\"" % h.pick(names)))
            elif k == 1:
                ls.append(h.line("", "setdp", h.num(h.r.randrange(-1, 4))))
            for _ in range(h.r.randrange(1, 4)):
                ls.append(h.line("", h.pick(["lda", "sty", "neg", "cmpu"]), h.pick(["", "", "<", ">"]) + "$%x" % h.r.randrange(0, 0x400)))
        yield one("sections-%d" % i, ls, 6309, extra)
    for i in range(int(60 * work)):
        h = G(g.r.random(), isas(i))
        yield one("sized-%d" % i, sized(h, h.pick([5, 10, 20])), h.isa, [])


# --- C04 ---------------------------------------------------------------------

def filler(h, n):
    """Lines that take n bytes"""
    ls = []
    while n > 0:
        k = h.r.randrange(5)
        if k == 0 or n > 60:
            m = n if n > 60 and h.chance(0.8) else h.r.randrange(1, n + 1)
            ls.append(h.line("", h.pick(["rmb", "rzb"]), str(m)))
            n -= m
        elif k == 1 and n >= 3:
            ls.append(" ldx #$1234")
            n -= 3
        elif k == 2 and n >= 2:
            ls.append(h.pick([" lda #1", " leax ,x", " leay 1,y"]))
            n -= 2
        elif k == 3 and n >= 4:
            ls.append(" ldy #$1234")
            n -= 4
        else:
            ls.append(h.pick([" nop", " clra", " rts"]))
            n -= 1
    return ls


def c04(g, work):
    h = G(g.r.random(), 6309)
    rel8 = [o for o in OPLIST[6309] if ISA[6309][o]["k"] == "rel8"]
    rel16 = [o for o in OPLIST[6309] if ISA[6309][o]["k"] == "rel16"]
    pcr = ["lda", "ldy", "sts", "leax", "lde", "ldq", "cmpu", "jmp", "stw", "neg"]
    dists = [0, 1, 2, 3, 60, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 200, 250]
    combos = [(kind, d, fwd) for kind in ("8", "16", "p", "[", "i") for d in dists for fwd in (0, 1)]
    for rep in range(max(1, int(2 * work))):
        for i, (kind, d, fwd) in enumerate(combos):
            op = h.pick(rel8 if kind == "8" else rel16 if kind == "16" else ["aim", "tim"] if kind == "i" else pcr)
            lab = h.pick(["target", "1"])
            ref = lab if lab != "1" else ("1F" if fwd else "1B")
            t = ref if kind in ("8", "16") else "[%s,pcr]" % ref if kind == "[" else "#5,%s,PCR" % ref if kind == "i" else "%s,pcr" % ref
            if kind == "16" and h.chance(0.3):
                t = ">" + t
            org = h.pick([" org $1000", " org $1000", " org $%x" % h.r.randrange(0, 0xf800), " put $4000", ""])
            fill = filler(h, d)
            here = [h.line("", op, t)]
            tl = [h.line(lab, h.pick(["nop", "fcb"]), "" if False else None)] if False else [lab + h.pick([" nop", "", " fcb 1", " equ *" if lab != "1" else " nop"])]
            body = here + fill + tl if fwd else tl + fill + here
            yield one("dist-%d-%d" % (rep, i), [org] + body, 6309, ["-v"] if h.chance(0.5) else [])
    # around the end of memory
    for i in range(int(60 * work)):
        h = G(g.r.random(), isas(i))
        a = h.r.randrange(0xff00, 0x10000 - 12)
        b = h.pick([0, 1, 5, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0x100, 0xffff, 0xff80, a, (a + 130) & 0xffff, (a - 126) & 0xffff])
        where = "t equ $%x" % b + h.pick(["", "", "+$10000", "-$10000", "+$20000", "-$30000", "+$100000000", "-$100000000"])
        ls = [where] if h.chance(0.5) else []
        ls += [" org $%x" % a]
        for _ in range(2):
            ls.append(h.pick([" lbra t", " leax t,pcr", " lda [t,pcr]", " bra t", " lbne t", " ldy t,pcr"]))
        if len(ls) == 3:
            ls.append(where)
        ls.append(" org $%x" % (b if b < 0xfff0 and not (a - 12 <= b <= a + 12) else 0x2000))
        ls.append(h.pick([" bra $%x", " lbsr $%x", " ldx $%x,pcr"]) % h.pick([a, 0xffff, 0xfff0, 0x10000 - 0x30]))
        yield one("wrap-%d" % i, ls, h.isa)
    # addresses beyond the ends of memory
    for i in range(int(40 * work)):
        h = G(g.r.random(), isas(i))
        a = h.pick([0, 0x80, 0x1000, 0x7fc0, 0x8000, 0xff00, 0xffc0, h.r.randrange(0xff00)])
        ls = [" org $%x" % a]
        for _ in range(3):
            far = h.pick([0x10000, -0x10000, 0x10000, -0x10000, 0x20000, 0x8000, -0x8000, 0x18000, 1 << 24, 1 << 32, 1 << 31, -(1 << 31), 0]) + h.pick([0, 1, -1, 10, -60, 100, 125, 129, -120, -126, -128, 200])
            t = h.pick(["*%+d" % far, "*%+d" % far, "%d" % (a + far), "$%x" % max(0, a + far)])
            ls.append(h.pick([" bra ", " bra ", " lbra ", " lbne ", " bsr "]) + t if h.chance(0.6) else h.pick([" leax %s,pcr", " lda [%s,pcr]", " ldy >%s,pcr", " lda <%s,pcr"]) % t)
        yield one("beyond-%d" % i, ls, h.isa)
    # prefixes and the direct page, which do not make a branch reach further
    for i in range(int(45 * work)):
        h = G(g.r.random(), isas(i))
        a = h.pick([0, 0x60, 0x1000, 0x1210, 0x8000, 0xff10, h.r.randrange(0xfe00)])
        ls = [" org $%x" % a] + h.pick([[], [" setdp %d" % h.pick([0, a >> 8, (a >> 8) + 1, 0x12])]])
        far = h.pick([-126, -127, 129, 130, 127, 128, -128, 200, -200, 300, 1000, 32769, 32770, -32765, -32766, 5])
        t = h.pick(["*%+d" % far, "t", "t", "$%x" % max(0, a + far)])
        if t == "t" and h.chance(0.5):
            ls.insert(0, "t equ %d" % (a + far))
        op = h.pick([" bra", " bne", " bsr", " brn", " lbra", " lbne", " lbsr", " leax", " lda"])
        ls.append("%s %s%s%s" % (op, h.pick(["<", "<", ">", "<<", "#", ""]), t, ",pcr" if op in (" leax", " lda") else ""))
        if t == "t" and not ls[0].startswith("t "):
            ls.append("t equ %d" % (a + far))
        yield one("prefix-%d" % i, ls, h.isa)
    # many references to many labels
    for i in range(int(120 * work)):
        h = G(g.r.random(), isas(i))
        n = h.pick([6, 12, 30])
        syms = ["t%d" % k for k in range(n)]
        ls = []
        for k in range(n):
            ls.append(syms[k])
            for _ in range(h.r.randrange(1, 4)):
                near = syms[max(0, k - 1):k + 2]
                x = h.r.randrange(6)
                if x == 0:
                    ls.append(h.line("", h.pick(rel8), h.pick(near)))
                elif x == 1:
                    ls.append(h.line("", h.pick(rel16), h.near(h.pick(syms))))
                elif x < 4:
                    ls.append(h.line("", h.pick(["lda", "ldy", "stx", "leau", "jsr"]), h.pick(["%s,pcr", "%s,PCR", "[%s,pcr]", ">%s,pcr"]) % h.near(h.pick(syms))))
                else:
                    ls += filler(h, h.pick([1, 3, 10, 40]))
        yield one("many-%d" % i, [" org $%x" % h.r.randrange(0xe000)] + ls, h.isa)


# --- C05 ---------------------------------------------------------------------

BINOPS = ["||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%"]
UNOPS = ["-", "+", "~", "!"]
BIG = [0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789ab, 0x7fffffffffffff, 0xffffffffffffff]


class Expr:
    """Random expressions.  Shapes: operators in any arrangement, without
    more parentheses than the random source decides on."""

    def __init__(self, g, syms=(), floats=True, strings=True):
        self.g, self.syms, self.floats, self.strings = g, syms, floats, strings

    def leaf(self):
        g = self.g
        k = g.r.randrange(20)
        if k < 9:
            return g.num(g.r.randrange(0, 20))
        if k < 12:
            return g.num(abs(g.value()))
        if k < 13:
            return g.num(g.pick(BIG))
        if k < 16 and self.syms:
            return g.pick(list(self.syms))
        if k < 17:
            return "*"
        if k < 18 and self.floats:
            return g.pick(["1.5", ".5", "2.", "0.25", "3.75", "10.0", "100.125", ".1", "2.5", "0.3", "1234567.891", "9007199254740993.0", "123456789012345678.", "0.00000000001", "99999999.999999999", "4294967296.5", "16777217."])
        if k < 19 and self.strings:
            return g.pick(["\"a\"", "/b/", "\"ab\"", "\"abc\"", "\"AB\"", "\"b\""])
        return "(%s)" % self.expr(1)

    def expr(self, depth):
        g = self.g
        if depth <= 0:
            return self.leaf()
        k = g.r.randrange(12)
        if k < 8:
            n = g.pick([1, 1, 2, 2, 3])
            out = self.expr(depth - 1)
            for _ in range(n):
                op = g.pick(BINOPS)
                s = g.pick([" ", " ", ""])
                right = self.leaf() if op in ("<<", ">>") else self.expr(depth - 1)
                if op in ("<<", ">>"):
                    right = g.num(g.r.randrange(0, 40))
                if op == "%" and right[:1] in "01":
                    s = " "
                if op in ("/", "%", "&", "<", ">", "-", "+"):
                    s = " "
                out += s + op + " " + right
                if op in ("<<", ">>") and g.chance(0.7):
                    out = "(%s)" % out      # what is shifted by is mostly not more than there are bits
            return out
        if k < 10:
            return g.pick(UNOPS) + g.pick(["", " "]) + g.pick([self.leaf(), "(%s)" % self.expr(depth - 1)])
        if k < 11:
            return "(%s)" % self.expr(depth - 1)
        return "%s ? %s : %s" % (self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1))


def c05(g, work):
    # every pair of operators, every unary operator: all groupings told apart
    lines = []
    for a in BINOPS:
        for b in BINOPS:
            for x, y, z in ((7, 3, 2), (1, 6, 3), (12, 5, 9)) if work >= 1 else ((7, 3, 2),):
                lines.append("%d %s %d %s %d" % (x, a, y, b, z))
    for u in UNOPS:
        for a in BINOPS:
            lines += ["%s 5 %s 3" % (u, a), "5 %s %s 3" % (a, u), "%s(5 %s 3)" % (u, a)]
            for v in UNOPS:
                lines.append("%s%s 6 %s 2" % (u, v, a))
    for a in BINOPS:
        lines += ["1 %s 0 ? 5 : 6 %s 2" % (a, a), "0 ? 1 : 2 %s 3" % a, "1 ? 2 %s 3 : 4" % a, "1 ? 0 ? 7 : 8 : 9 %s 1" % a,
                  "0 ? 1 : 0 ? 2 : 3 %s 1" % a]
        for x, y in (("1.5", "2"), ("3", ".5"), ("2.5", "2.5"), ("\"a\"", "3"), ("5", "/b/"), ("\"ab\"", "\"b\""),
                     ("\"a\xe9\"", "1"), ("\"\xe9\"", "\"z\""), ("'\xe9", "0"), ("/\x80\xffa/", "\"b\" + 0"), ("\"vwxyz\"", "5"),
                     ("\"a\"", "\"a\""), ("-1", "1"), ("0", "0"), ("7", "-2"), ("-7", "2"), ("-7", "-2"), ("0", "5"), ("5", "0"),
                     ("$7fffffff", "2"), ("$123456789a", "$10003"), ("-8", "1"), ("1", "31"), ("1", "63"), ("-1", "60"),
                     ("0.0", "1"), ("1", "0.0"), (".5", "0"), ("16777217.0", "16777216.0"), ("16777217", "16777216.0"),
                     ("67108865.0", "67108864"), ("1000000.25", "1000000.5"), ("-16777217.5", "-16777217.0"), ("1073741823.0", "1073741824.0"), ("0.1", "0.2"), ("1", "3.0"), ("-1", "3"), ("0.1", "10"),
                     ("9007199254740993", "2.0"), ("9007199254740993", "9007199254740992.0"), ("$7fffffffffffffff", "1.0"), ("1", "3333333333333333"), ("123456789.123456789", ".000000001"),
                     ("-9223372036854775807", "0.5"), ("4503599627370497.5", "4503599627370496.5"), ("99999999999999999.0", "3"), ("0.5", "0.49999999999999994"), ("1.0", "0.1")):
            lines.append("%s %s %s" % (x, a, y))
    for n in ("0", "00", "010", "017", "09", "0x0", "0xfF", "$Ff", "$0", "@17", "@0", "0b101", "%101", "%0", "'A", "'A'", "'\xe9", "'\x80'", "\"\xe9\"", "\"ab\xffc\"", "\"\x80\xff\"", "\"abcdef\"", "''", "'''", "' '", "'0",
              "123456789", "017777", "0b1", "$123456789abcdef", "-0", "1.0", "1.", ".5", "0.125", "$a", "0b12", "@18", "08"):
        lines += [n, "%s + 1" % n, "(%s)" % n, "-%s" % n]
    # the ends of the range
    m = "(-9223372036854775807 - 1)"
    ends = ["%s %s %s" % (x, a, y) for a in BINOPS if a not in ("<<", ">>") for x in (m, "9223372036854775807") for y in (m, "(-1)", "9223372036854775807", "1", "2", "(-2)", "1.0")]
    ends += ["%s %s %s" % (y, a, m) for a in BINOPS if a not in ("<<", ">>") for y in ("(-1)", "0", "1", "3", "(-3)")]
    ends += ["%s%s" % (u, x) for u in UNOPS for x in (m, "9223372036854775807", "(-9223372036854775807)")]
    ends = [e for e in ends if not e.endswith(".0")] + [e for e in ends if e.endswith(".0")]
    for i, part in enumerate(chunks(ends, 6)):
        yield one("ends-%d" % i, [" fqb (%s) >> 32, %s, ((%s) & $7fff) * 2" % (e, e, e) for e in part])
    g.r.shuffle(lines)
    # (there is no saying what a shift by a negative number or by more than there are bits gives)
    shifts = [l for l in lines if "<<" in l or ">>" in l]
    for i, part in enumerate(list(chunks([l for l in lines if l not in set(shifts)], 10)) + list(chunks(shifts, 2))):
        ls = []
        for k, e in enumerate(part):
            # each on a line of its own: a value is visible in the symbols and in the listing
            ls.append("e%d equ %s" % (k, e))
            ls.append(" fqb %s" % e)
        yield one("ops-%d" % i, ls, sym=True, exp=False)
    # sums that are not what they are on paper, made into integers
    for i in range(int(60 * work)):
        h = G(g.r.random())
        ls = []
        for k in range(4):
            fs = [h.pick(["%d.%d" % (h.r.randrange(10 ** h.r.randrange(1, 9)), h.r.randrange(10 ** h.r.randrange(1, 9))), "%d" % h.r.randrange(1, 100), "%d" % h.r.randrange(1, 1 << 60), "1 / %d" % h.r.randrange(1, 1000), ".%0*d" % (h.r.randrange(1, 15), h.r.randrange(1, 10))]) for _ in range(3)]
            e = "(%s) %s (%s)" % (fs[0], h.pick(["+", "-", "*", "/"]), fs[1])
            f = "(%s) %s (%s)" % (e, h.pick(["+", "-", "*", "/"]), fs[2])
            ls += ["f%d equ %s" % (k, h.pick([e, f])), "g%d equ (f%d %s %s) %s" % (k, k, h.pick(["*", "/"]), h.pick(["3", "10", "1000000", "0.7", "65536", "4294967296.5"]), h.pick(["| 0", "", "+ .5", "> 1"])),
                   " if f%d > -1000000000 && f%d < 1000000000" % (k, k), " fqb f%d, f%d * 10" % (k, k), " fcb f%d" % k, " ldd #f%d & $ffff" % k, " endif", " fqb f%d == %s" % (k, h.pick([e, f]))]
        yield one("floats-%d" % i, ls, sym=True, exp=False)
    # characters as numbers
    for i in range(int(60 * work)):
        h = G(g.r.random())
        ls = []
        for k in range(h.pick([1, 2, 2])):
            x, y = ("".join(h.pick(["\x80", "\xff", "\x81", "\x7f", "a", "z", "0", " ", "@", "\x01", "\xe9", "\xc0"]) for _ in range(h.pick([0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 12]))) for _ in "xy")
            y = h.pick([y, x, x[:-1], x + h.pick("a\x80")])
            q = h.pick(["\"%s\"", "\"%s\"", "/%s/"])
            x, y = q % x, h.pick([q, "\"%s\""]) % y
            e = h.pick(["%s + 0", "%s * 3", "%s / 256", "%s >> 8", "-%s", "~%s", "0 - %s", "%s < 0", "%s > 1000", "%s | 1", "%s & -1", "%s + .5", "%s == 128", "%s ? 1 : 2", "!%s", "%s %% 1000", "%s << 8", "%s == 4294967295"]) % x
            ls += ["e%d equ %s" % (k, h.pick([e, e, "%s %s %s" % (x, h.pick(["==", "!=", "<", ">=", "+", "-", "&&"]), y)])), " fqb e%d" % k]
        yield one("chars-%d" % i, ls, sym=True)
    # long strings compared
    for i in range(int(20 * work)):
        h = G(g.r.random())
        ls = []
        for k in range(8):
            m = h.pick([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
            a = "".join(chr(97 + (j * 7 + k) % 26) for j in range(m))
            at = max(0, h.pick([m - 1, m - 1, m // 2, h.r.randrange(m + 1), 0]))
            z = h.pick(["Z", "\xe9", a[at:at + 1].upper()])
            b = h.pick([a, a[:at] + z + a[at + 1:], a[:at] + z + a[at + 1:], a[:at] + z + a[at + 1:], a[:-1], a + "x", a[:at] + z])
            if h.chance(0.3):
                ls += ["p%d equ \"%s\"" % (k, a), " fcb p%d %s \"%s\"" % (k, h.pick(["==", "!="]), b)]
            else:
                ls.append(" fcb \"%s\" %s \"%s\"" % (a, h.pick(["==", "!=", "==", "<"]), b))
        yield one("compare-%d" % i, ls, sym=True)
    # those in error hide the values of the others: alone
    for i, part in enumerate(chunks(lines, 4)):
        if work < 5 and g.chance(0.75):
            continue
        yield one("few-%d" % i, ["e%d equ %s" % (k, e) for k, e in enumerate(part)], sym=True)
    for i in range(int(450 * work)):
        h = G(g.r.random(), isas(i))
        syms = ["s1", "s2", "s3"]
        x = Expr(h, syms, h.chance(0.5), h.chance(0.3))
        ls = [" org $%x" % h.r.randrange(0x8000), "s1 equ %s" % h.num(h.value())]
        for k in range(h.pick([1, 2, 4])):
            e = x.expr(h.pick([1, 2, 2, 3]))
            c = h.r.randrange(8)
            if c < 5:
                ls.append("e%d equ %s" % (k, e))
            elif c == 5:
                ls += [h.line("", "fcb", "(%s) & 255" % e), h.line("", "fqb", "(%s) >> 32" % e)]
            elif c == 6:
                ls.append(h.line("", "ldd", "#" + e))
            else:
                ls += [h.line("", "if", e), " fcb 1", " else", " fcb 2", " endif"]
        ls += ["s2 equ %s" % h.num(h.value()), "s3 equ %s" % h.pick(["s1 + s2", "1.5", "s2 * 2", "-1"])]
        yield one("random-%d" % i, ls, h.isa, sym=True)


# --- C06 ---------------------------------------------------------------------

def nest(h, depth, ls, tag, most=60):
    for _ in range(h.r.randrange(1, 4)):
        k = h.r.randrange(6)
        if k < 2 or depth <= 0 or len(ls) > most:
            tag[0] += 1
            ls.append(h.pick([" fdb %d", "n%d nop", " lda #%d & 255", " rmb %d & 3"]) % tag[0])
        elif k == 2:
            tag[0] += 1
            ls.append(h.pick(["", " bogus x", " fcb 1,", " export q", " include \"nowhere\"", " fdb nosuch", "a b c d", "1",
                              " org", " end_", " opt x", " ttl q"]) if h.chance(0.2) else " fcb %d" % (tag[0] & 255))
        else:
            ls.append(h.line("", "if", cond(h)))
            nest(h, depth - 1, ls, tag)
            for _ in range(h.pick([0, 0, 1, 2, 3])):
                ls.append(h.line("", "elsif", cond(h)))
                nest(h, depth - 1, ls, tag)
            if h.chance(0.6):
                ls.append(h.line("", "else"))
                nest(h, depth - 1, ls, tag)
            ls.append(h.line("", "endif"))


def cond(h):
    return h.pick(["0", "1", "0", "1", "0", "-1", "256", "65536", "$100000000", "undef1", "!undef1", "k1", "k0", "k1 == 1", "k0 | 0",
                   ".5", "0.0", "1.5", "fwd1", "fwd0", "\"\"+0" if False else "\"a\"", "k1 - 1", "'a - 97", "* > $8000"])


def wrong_nest(h):
    """A nest with one line left out, added or changed"""
    ls = ["k1 equ 1", "k0 equ 0"]
    nest(h, 3, ls, [0])
    idx = [i for i, l in enumerate(ls) if l.split() and l.split()[0].lower() in ("if", "elsif", "else", "endif")]
    k = h.r.randrange(5)
    if k < 2 and idx:
        del ls[h.pick(idx)]
    elif k < 4:
        ls.insert(h.r.randrange(2, len(ls) + 1), h.pick([" else", " endif", " if 1", " if 0", " elsif 1", " elsif 0", " if", " if 1,2",
                                                         " elsif", " if x", " if ,", " if #1", " else 5", " endif 5"]))
    elif idx:
        ls[h.pick(idx)] = h.pick([" else", " elsif 1", " endif", " if 0", " if 1"])
    return ls


def c06(g, work):
    # every construct of up to three conditions and three values each, alone and after another
    n = 0
    for arms in range(0, 4):
        for cs in itertools.product((0, 1), repeat=arms + 1):
            for els in (0, 1, 2):
                body = [" if %d" % cs[0], " fcb 1"]
                for i, c in enumerate(cs[1:]):
                    body += [" elsif %d" % c, " fcb %d" % (i + 2)]
                if els:
                    body += [" else", " fcb 99"]
                if els == 2:
                    body += [" else", " fcb 98"]
                body += [" endif", " fcb 100"]
                for outer in (0, 1, 2):
                    w = body if outer == 0 else [" if %d" % (outer - 1)] + body + [" else", " fcb 77"] + body + [" endif"]
                    n += 1
                    yield one("arms-%d" % n, w + [" fcb 101"])
    # sequences of conditional lines in any order
    words = [" if 0", " if 1", " elsif 0", " elsif 1", " else", " endif"]
    for size in (1, 2, 3) if work < 5 else (1, 2, 3, 4, 5):
        for seq in itertools.product(words, repeat=size):
            n += 1
            ls = []
            for i, w in enumerate(seq):
                ls += [w, " fcb %d" % (i + 1)]
            yield one("seq-%d" % n, ls)
            if size <= 2:
                yield one("seq-c-%d" % n, ls + [" endif"] * size)
    for i in range(int(250 * work)):
        h = G(g.r.random())
        ls = ["k1 equ 1", "k0 equ 0"]
        nest(h, h.pick([2, 3, 4, 6]), ls, [0])
        yield one("nest-%d" % i, ls + ["fwd1 equ 1", "fwd0 equ 0"])
    for i in range(int(120 * work)):
        h = G(g.r.random())
        yield one("wrong-%d" % i, wrong_nest(h) + ["fwd1 equ 1", "fwd0 equ 0"])
    # the same in a macro or an included file, in arms of all kinds
    todo = [(seq, k, o) for size in (1, 2, 3) for seq in itertools.product(words, repeat=size) for k in (0, 1) for o in (0, 1)]
    todo = g.r.sample(todo, min(len(todo), int(150 * work)))
    for seq in [[0, a, 4, 4, 5] for a in (0, 1, 2, 3)] + [[1, a, 4, b, 5] for a in (0, 2, 3, 4) for b in (2, 3, 4)]:
        for k in (0, 1):
            todo.append(([words[w] for w in seq], k, g.r.randrange(2)))
    for seq, k, o in todo:
        n += 1
        body = []
        for i, w in enumerate(seq):
            body += [w, " fcb %d" % (i + 1)]
        ls = [" if 1", " fcb 60"] if o else []
        ls += (["mm macro"] + body + [" endm", " mm"] if k == 0 else [" include \"i.s\""]) + [" fcb 61"] + ([" endif", " fcb 62"] if o else [])
        yield one("part-%d" % n, ls, files={"i.s": text(body)} if k else {})
    # in macros and includes
    for i in range(int(100 * work)):
        h = G(g.r.random())
        body = []
        nest(h, 3, body, [0])
        body = [l.replace("undef1", "\\1") for l in body if not l.startswith(("n", "a b"))]
        if h.chance(0.15):
            body.insert(h.r.randrange(len(body) + 1), h.pick([" endif", " else", " if 1", " if 0"]))
        ls = ["k1 equ 1", "k0 equ 0", " if 1" if h.chance(0.3) else ""]
        files = {}
        if h.chance(0.5):
            ls += ["mm macro"] + body + [" endm", " mm 0", " fcb 200", " mm 1"]
        else:
            files["i.s"] = text([l.replace("\\1", "1") for l in body])
            ls += [" include \"i.s\"", " fcb 200", " include \"i.s\""]
        ls += [" endif" if "if" in ls[2] else "", " fcb 201", "fwd1 equ 1", "fwd0 equ 0"]
        yield one("within-%d" % i, ls, files=files)
    # deep
    for d in (10, 50, 200) if work >= 5 else (10, 40):
        for v in (0, 1):
            ls = [" if %d" % v] * d + [" fcb 1"] + [" else", " fcb 2", " endif"] * d + [" fcb 3"]
            yield one("deep-%d-%d" % (d, v), ls)


# --- C07 ---------------------------------------------------------------------

def marg(h, syms):
    """An argument of a macro call"""
    return h.pick(["5", "$1234", "-1", "x", "y", "\"str\"", "/abc/", "foo", "foo + 1", "1.5", "a", "(1 + 2) * 3", "'q", "s",
                   "\"a\"", "\"foo\"", "*", "65536", "pcr", "cc", "x+", "-y"] + list(syms))


def mbody(h, depth, macros):
    """Lines of a macro"""
    ls = []
    for _ in range(h.r.randrange(1, 6)):
        p = h.pick(["\\1", "\\2", "\\{1}", "&{2}", "\\3", "&{3}", h.pick(["\\{10}", "\\{01}", "&{010}", "\\{08}", "\\{002}"]) if h.chance(0.15) else "\\1", "\\4" if h.chance(0.2) else "\\2"])
        k = h.r.randrange(14)
        if k < 2:
            ls.append(" fcb " + p)
        elif k == 2:
            ls.append(" fcc \"<%s>\"" % h.pick([p, "&1", "a&{2}b", "\\1\\2"]))
        elif k == 3:
            ls.append(" lda " + h.pick(["#" + p, p + ",x", "," + p, p, "[" + p + "]", "<" + p, ">" + p]))
        elif k == 4:
            ls.append(" ld%s #5" % p)
        elif k == 5:
            ls.append("%s%s_%s equ %s" % (h.pick(["l", "l", ""]), h.pick([p, p, "&1", "&2", "&{1}"]), h.r.randrange(9), h.num(h.r.randrange(99))))
        elif k == 6:
            ls.append(" %s%s" % (h.pick(["", "f", "ld", "&1", "ld&"]), h.pick([p, "&1", "&{2}", "\\1", "b"])))
        elif k == 7:
            ls.append(" fdb %s * 2 + %s" % (p, h.pick(["1", "\\1"])))
        elif k == 8:
            ls.append(" if %s" % h.pick([p, "\\1 > 3", "0"]))
            ls.append(" fcb 10")
            ls.append(h.pick([" else", " elsif 1"]))
            ls.append(" fcb 20")
            ls.append(" endif")
        elif k == 9 and macros:
            ls.append(" %s %s" % (h.pick(macros), ",".join(h.pick([p, "7", "\"in\"", "\\2", "foo"]) for _ in range(h.r.randrange(0, 4)))))
        elif k == 10 and depth > 0:
            ls += ["in%s macro" % h.pick(["", "\\1", "x"]), " fcb 44,\\1", " endm"]
            if h.chance(0.7):
                ls.append(" in 3" if "in macro" in ls[-3] else " inx 4")
        elif k == 11:
            ls += ["1 nop", " bra 1B"]
        elif k == 12:
            ls.append(" pshs \\1,\\2")
        else:
            ls.append(" fcb 1 ; &1")
    return ls


def c07(g, work):
    for i in range(int(280 * work)):
        h = G(g.r.random(), isas(i))
        ls = ["foo equ 9"] if h.chance(0.8) else []
        macros = []
        for m in range(h.r.randrange(1, 5)):
            nm = h.pick(["mac", "Mac", "MAC", "m.1", "zed"]) + str(m)
            ls += [h.line(nm, "macro")] + mbody(h, 1, macros) + [h.line("", h.pick(["endm", "ENDM"]), h.pick([None, None, "\"%s\"" % nm]))]
            macros.append(nm)
            if h.chance(0.4):
                ls.append(" %s %s" % (h.pick(macros), ",".join(marg(h, []) for _ in range(h.r.randrange(0, 5)))))
        for _ in range(h.r.randrange(1, 5)):
            ls.append("%s %s %s" % (h.pick(["", "", "", "lab%d" % len(ls)]), h.pick(macros),
                                    ",".join(marg(h, []) for _ in range(h.pick([0, 1, 2, 3, 3, 3, 11])))))
        if h.chance(0.1):
            ls.append(h.pick([" endm", "x macro", " mac0x", "%s macro" % macros[0], " macro"]))
        if not h.chance(0.8):
            ls.append("foo equ 3")
        yield one("random-%d" % i, ls, h.isa, extra=["-P", h.pick(["3", "4", "12"])])
    # arguments by position, all counts and positions
    for n in range(0, 13):
        body = [" fcb \\{%d}" % k for k in range(1, n + 1)] + [" fdb \\%d" % k for k in range(1, min(n, 9) + 1)]
        for m in sorted({max(0, n - 1), n, n + 1}):
            yield one("args-%d-%d" % (n, m), ["m macro", " nop"] + body + [" endm", " m " + ",".join(str(k + 20) for k in range(m))])
    for n in (8, 9, 12):
        yield one("zeros-%d" % n, ["m macro"] + [" fcb \\{%0*d}" % (w, k) for k in range(1, n + 1) for w in (1, 2, 3)] + [" fcc \"&{%0*d}\"" % (w, k) for k in range(1, n + 1) for w in (2, 3)] + [" endm", " m " + ",".join(str(k + 20) for k in range(n))])
    # the name of an operation, in parts
    for k, w in enumerate(["&1", "&{1}", "\\1", "\\{1}", "ld&2", "&3d&2", "f&{4}", "&4b", "\\3\\{5}", "&3d\\2", "&{3}&5", "&1&6", "\\6\\1\\6", "l&{05}", "&3&5 "]):
        for sp in (" ", "\t  ", "lab "):
            yield one("parts-%d-%d" % (k, ord(sp[0])), ["m macro", "%s%s #5" % (sp, w), " fcb 1", " endm", " m ldd,b,l,fc,da,\"\"", " m \"LDX\",\"a\",\"l\",\"c\",\"db\",\"\"", " fcb 9"], exp=True)
    # positions of one digit and of two, anywhere in a line
    h = G(g.r.random())
    ARG10 = ["ld", "a", "b", "fc", "nop", "lab", "1", "x", "7", "d", "da", "b1", "tab", "2", "y", "fdb", "p", "ax"]
    for i in range(int(130 * work)):
        n = h.pick([9, 10, 10, 11, 12, 15, 18, 20])
        vals = [h.pick(ARG10) for _ in range(n)]
        at = lambda w: h.pick([k + 1 for k, v in enumerate(vals) if v in w] or [h.r.randrange(1, n + 2)])
        def var(w=None, quoted=False):
            k = at(w) if w else h.r.randrange(1, n + 2)
            f = ["&{%d}", "&{%d}", "\\{%d}", "&{0%d}"] + ([] if k > 9 else ["&%d", "\\%d"])
            return h.pick(f if not quoted else [q for q in f if q[0] == "&"]) % k
        body = []
        for _ in range(h.pick([1, 1, 2, 4])):
            lab = h.pick(["", "", "", "l%s", "%s", "%s", "x%sy"])
            lab = lab % var(["lab", "tab", "p"] if h.chance(0.7) else None) if lab else ""
            o = h.pick([lambda: "ld" + var(["a", "b", "d", "x", "y"]) + " #5", lambda: var(["ld"]) + var(["a", "b", "d"]) + " #5", lambda: var(["nop"]), lambda: var(["fc"]) + "b 1",
                        lambda: "fcb " + var(["1", "7", "2"]), lambda: "fcb %s%s" % (var(["1", "7", "2"]), var(["1", "7", "2"])), lambda: "fcc \"%s-%s\"" % (var(None, True), var(None, True)), lambda: var(["fdb"]) + " *",
                        lambda: "lda %s,%s" % (var(["1", "7"]), var(["x", "y"])), lambda: "equ 5", lambda: "f" + var(["da", "d"]) + var(["b"]) + " 3", lambda: "fcb 1,%s,3" % var(["1", "2"]), lambda: "lda #" + var(["1", "2", "7"])])()
            body.append("%s %s" % (lab, o))
        call = " m " + ",".join("\"%s\"" % v if not v.isdigit() or h.chance(0.2) else v for v in vals)
        yield one("ten-%d" % i, ["m macro"] + body + [" endm", call, " fcb 99"], extra=["-P", "3"], exp=h.chance(0.2), sym=h.chance(0.3))
    # a macro that does not end where its file does, or its macro
    for k, head in enumerate(["m macro", "m macro x", "m\tMACRO", "&1 macro"]):
        for j, rest in enumerate([[], [""], [" fcb 1"], ["; c"], ["*c", ""], ["n macro"], [" endm", "n macro"], ["n macro", " endm"], [" if 1"], [" end"], ["x"], [" macro"], [" bad bad", " fcb"]]):
            ls = [head] + rest
            if work < 5 and k and h.chance(0.6):
                continue
            yield one("open-%d-%d" % (k, j), ls)
            yield one("open-after-%d-%d" % (k, j), [" fcb 1", "q equ 5"] + ls)
            yield one("open-two-%d-%d" % (k, j), ls, files={"b.s": h.pick([" fcb 2\n", "n macro\n fcb 2\n endm\n n\n", " endm\n", ""])})
            yield one("open-inc-%d-%d" % (k, j), [" fcb 1", " include \"i.s\"", h.pick([" fcb 2", " endm", " m"])], files={"i.s": "\n".join(ls) + h.pick(["\n", ""])})
            yield one("open-if-%d-%d" % (k, j), [h.pick([" if 1", " if 0", " if 0\n else"])] + ls + h.pick([[], [" endif"]]))
            yield one("open-in-%d-%d" % (k, j), ["w macro"] + ls + [" endm", h.pick([" w", " w \"zz\""]), " fcb 3"])
    # what may follow ENDM and MACRO
    for k, w in enumerate(["1", "x", "\"m\"", "\"n\"", "\"m\",1", "1,2", ",", "m,n", "\"\"", "1.5", "; m", "/m/", "*", "(1)", "[1]", "#1", "\"M\"", "u"]):
        yield one("endm-%d" % k, ["m macro", " fcb 1", " endm " + w, " m", " fcb 2"], exp=True)
        yield one("macro-%d" % k, ["m macro " + w, " fcb 1", " endm", " m", " fcb 2"], exp=True)
    # nesting
    for d in range(1, 11):
        ls = []
        for k in range(d):
            ls += ["m%d macro" % k, " fcb \\1"] + ([" m%d \\1 + 1, \\2" % (k + 1)] if k < d - 1 else [" fcb \\2"]) + [" fcb \\1", " endm"]
        for k in (0, 1):
            yield one("nested-%d-%d" % (d, k), ls + [" m0 %d,%d" % (k * 7, 200 + k), " fcb 99", " m0 1,2"])
    yield one("recursive", ["m macro", " fcb \\1", " m \\1 + 1", " endm", " m 1", " fcb 9"])
    yield one("recursive-2", ["m macro", " n", " endm", "n macro", " m", " endm", " m"])
    # recursion that ends
    for n in range(0, 10):
        yield one("countdown-%d" % n, ["m macro", " if \\1", " fcb \\1", " m \\1 - 1", " fcb \\1 + 100", " endif", " endm", " m %d" % n, " fcb 255"])
    # a macro in unselected code, redefinition, names
    for k, ls in enumerate([
            ["m macro", " fcb 1", " endm", "m macro", " fcb 2", " endm", " m"],
            [" if 0", "m macro", " fcb 1", " endm", " endif", "m macro", " fcb 2", " endm", " m"],
            ["m macro", " fcb 1", " endm", "M macro", " fcb 2", " endm", " m", " M", " m"],
            ["nop macro", " fcb 1", " endm", " nop", " NOP"],
            ["m macro", " fcb 1", " m", " endm", "m2 macro", "m3 macro", " fcb 3", " endm", " m3", " endm", " m2", " m3"],
            ["m macro", " fcb 1", "m3 macro", " fcb 3,\\1", " endm", " endm", " m 7", " m3 8", " fcb 2"],
            ["m macro", "x\\1 macro", " fcb \\1", " endm", " x\\1 5", " endm", " m a1", " m b1"],
            ["m macro", "\\1 macro", " fcb 1", " endm", " endm", " m abc", " abc"],
            ["m macro", " fcb 1", " endm", "m equ 5", " m", " fcb m"],
            ["m macro", " endm", " m", "l m", " fdb l"],
            [" m", "m macro", " fcb 1", " endm"],
            ["1 macro", " fcb 1", " endm"],
            ["m macro", " fcb 1"], [" endm"], ["m macro", "n macro", " endm"], ["m macro foo", " endm 1", " m"],
            ["m macro", " fcb 1", " end", " fcb 2", " endm"],
            ["m macro", " if 1", " endm", " m", " endif"],
            ["m macro", " include \"i.s\"", " endm", " m 3"],
    ]):
        yield one("shape-%d" % k, ls, files={"i.s": " fcb 7,\\1\n"}, exp=False)


# --- C08 ---------------------------------------------------------------------

def c08(g, work):
    n = 0
    # all short programs of definitions of and references to two local labels
    words = ["0 nop", "1 nop", " bra 0B", " bra 0F", " bra 1B", " bra 1F"]
    words += [" bra <", " bra >", "! nop"] if work >= 5 else []
    sizes = (1, 2, 3) if work < 5 else (1, 2, 3, 4)
    todo = [seq for s in sizes for seq in itertools.product(words, repeat=s)]
    if work < 5:
        todo += [tuple(g.pick(words) for _ in range(g.r.randrange(4, 8))) for _ in range(150)]
    for seq in todo:
        n += 1
        yield one("seq-%d" % n, list(seq), extra=["-P", "3"])
    for i in range(int(330 * work)):
        h = G(g.r.random(), isas(i))
        labs = h.pick([["0"], ["0", "1"], ["1", "2", "3"], ["0", "!", "00"], ["10", "1", "$a"], ["5", "500", "65535"], ["@17", "$F", "14"], ["0b110", "%110", "6", "5"], ["017", "17", "0xf"], ["0x1F", "@37", "31", "32"], ["0999", "999"]])
        num = {"!": "0", "00": "0", "$a": "10", "@17": "15", "$F": "15", "0b110": "6", "%110": "6", "017": "15", "0xf": "15", "0x1F": "31", "@37": "31", "0999": "999"}
        ls = ["mm macro", "%s fdb %sB" % (h.pick(labs), num.get(labs[0], labs[0])), " fdb %sF" % num.get(labs[0], labs[0]), "%s nop" % labs[0], " endm"] if h.chance(0.3) else []
        files = {}
        length = h.pick([5, 15, 40])
        secs = ["CODE"] + (["one", "two"] if h.chance(0.4) else [])
        for k in range(length):
            x = h.r.randrange(10)
            lab = h.pick(labs)
            ref = num.get(h.pick(labs), None) or h.pick([l for l in labs if l not in num] or ["0"])
            if x < 3:
                ls.append("%s%s" % (lab, h.pick([" nop", "", " fcb 1", " equ *", " rmb 2", " lda #5"])))
            elif x < 7:
                d = h.pick("BFbf")
                t = h.pick([" fdb %s%s", " fdb %s%s", " ldx #%s%s", " lbra %s%s", " leax %s%s,pcr", " fdb %s%s+1"]) % (ref, d)
                ls.append((lab if h.chance(0.25) else "") + t)
            elif x == 7 and "0" in [num.get(l, l) for l in labs]:
                ls.append(h.pick([" lbra <", " lbra >", " bsr >", " lbsr <"]))
            elif x == 8 and len(secs) > 1:
                ls.append(" section \"%s\"" % h.pick(secs))
            elif x == 9 and ls and ls[0].startswith("mm"):
                ls.append(" mm")
            else:
                ls += h.pick([[" nop"], [""], ["* c"], [" if %d" % h.r.randrange(2), "%s nop" % lab, " endif"]])
        yield one("random-%d" % i, ls, h.isa, extra=["-P", h.pick(["3", "4"])])
    # the same numbers written in several ways; a reference is always decimal
    ways = ["010", "10", "8", "08", "0010", "01", "1", "7", "07", "100", "0100", "64", "0144", "0x10", "16", "0", "00", "000", "9", "09", "$10", "@10", "%10", "2"]
    for i in range(int(40 * work)):
        h = G(g.r.random())
        some = h.r.sample(ways, h.pick([2, 3, 6]))
        refs = [w for w in some if w.isdigit()] or ["10"]
        ls = []
        for k in range(h.pick([4, 8, 14])):
            ls.append(h.pick([h.pick(some) + h.pick([" fcb %d" % k, " nop", ""]), " fdb %s%s" % (h.pick(refs), h.pick("BFbf"))]))
        if h.chance(0.7):
            ls = [w + " fcb 77" for w in some] + ls + [w + " fcb 78" for w in some]
        yield one("ways-%d" % i, ls, extra=["-P", "3"])
    # few of the same label, far apart
    for i in range(int(24 * work)):
        h = G(g.r.random())
        at = sorted(h.r.sample(range(700), h.pick([3, 5, 9])))
        ls = [h.pick(["", "", "* c", " nop"])] * (at[-1] + 1)
        labs = h.pick([["1"], ["1"], ["1", "2"], ["0", "256"]])
        for k in at:
            ls[k] = h.pick(labs) + h.pick([" fcb 1", " fdb *", "", " fdb 1B", " fdb 1F"])
        for k in h.r.sample(range(at[-1]), 12):
            ls[k] = " fdb %s%s" % (h.pick(labs), h.pick("FFFB"))
        ls = ["%s fcb 0" % l for l in labs] + ls + ["%s fcb 9" % l for l in labs]
        if h.chance(0.2):
            c = h.r.randrange(10, len(ls) - 5)
            ls[c:c + 1] = h.pick([[" section \"s\""], [" include \"i.s\""]])
        yield one("spread-%d" % i, ls, extra=["-P", "4"], files={"i.s": text([""] * h.pick([5, 300]) + [labs[0] + " fcb 7"] + [" fdb %sB" % labs[0]])})
    # long tables of the same label, referred to from everywhere
    for i in range(int(10 * work)):
        h = G(g.r.random())
        ls = []
        for k in range(h.pick([60, 120, 200])):
            ls.append(h.pick(["1 nop", "2 nop", " fdb 1B", " fdb 2B", " fdb 1F", " fdb 2F", " nop"]))
        ls = ["1 nop", "2 nop"] + ls + ["1 nop", "2 nop"]
        yield one("long-%d" % i, ls, extra=["-P", "4"])


# --- C09 ---------------------------------------------------------------------

NAMES = ["foo", "Foo", "FOO", "foo1", "foo.", "f.oo", "_foo", "foo_", "fo", "oo", "Aa", "BB", "aB", "zz", "nop", "lda", "equ", "B1", "a1", "x1",
         "pc1", "end1", "ab", "bA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAB"]


def collisions(h, n):
    """Names with equal hashes under the usual string hash h*33+c"""
    out = []
    while len(out) < n:
        s = "k" + "".join(h.pick(["Aa", "BB", "C@" if False else "Aa"]) for _ in range(3)) + h.pick(["q", "r"])
        if s not in out:
            out.append(s)
        if len(out) >= 16:
            break
    return out


def c09(g, work):
    # definitions in all kinds of pairs
    ways = ["%s", "%s nop", "%s equ 5", "%s equ 6", "%s set 5", "%s set 7", "%s org $20", "%s section \"q\"", "%s rmb 2", " export %s", "%s macro\n endm",
            " fdb %s", "%s equ \"s\"", "%s equ 1.5", "%s equ x"]
    n = 0
    for a in ways:
        for b in ways:
            n += 1
            yield one("pair-%d" % n, [a % "foo", " fcb 1", b % "foo", " fdb foo" if n % 2 else " nop"], sym=True, exp=True, extra=["-P", "3"])
    for a in ways:
        for dv in ("", "=5", "=7"):
            n += 1
            yield one("option-%d" % n, [" fdb 1", a % "foo", " nop"], extra=["-P", "3", "-d", "foo" + dv], sym=True)
    for i in range(int(250 * work)):
        h = G(g.r.random())
        names = h.r.sample(NAMES, h.r.randrange(3, 9)) + collisions(h, h.pick([0, 3, 6]))
        defs = [nm for nm in names]
        h.r.shuffle(defs)
        if h.chance(0.3):
            defs.append(h.pick(defs))
        if h.chance(0.3):
            defs.pop()
        ls = []
        for nm in defs:
            ls.append(h.pick(["%s", "%s nop", "%s equ %d" % ("%s", h.r.randrange(70000)), "%s set %d" % ("%s", h.r.randrange(99)), "%s rmb 3",
                              "%s equ *+1"]) % nm)
        for _ in range(h.r.randrange(2, 12)):
            ls.insert(h.r.randrange(len(ls) + 1), h.pick([" fdb %s", " ldx #%s", " fdb %s+1", " lda %s", " jmp [%s]"]) % h.pick(names))
        # a SET symbol read before it is first set has its last value
        ls = order_sets(ls)
        yield one("random-%d" % i, ls, sym=True, extra=["-P", h.pick(["3", "4", "12"])])
    # many symbols
    for i in range(max(1, int(3 * work))):
        h = G(g.r.random())
        m = h.pick([60, 130, 300])
        names = ["%s%d" % (h.pick(["s", "S", "lab_", "x."]), k) for k in range(m)]
        order = list(names)
        h.r.shuffle(order)
        ls = ["%s equ %d" % (nm, k * 7) for k, nm in enumerate(names)]
        h.r.shuffle(ls)
        half = len(ls) // 2
        yield one("many-%d" % i, ls[:half] + [" fdb " + ",".join(part) for part in chunks(order, 8)] + ls[half:], sym=True, extra=["-P", "3"])


def order_sets(ls):
    """Moves to the front a first SET of each symbol that has one"""
    sets = {}
    for l in ls:
        w = l.split()
        if len(w) > 1 and w[1] == "set" and not l.startswith(" "):
            sets.setdefault(w[0], l)
    return [l for l in sets.values()] + ls


# --- one value, used again and again -------------------------------------------

USES = {
    "reg": [" lda ,%", " lda 5,%", " lda [,%]", " ldb -3,%", " tfr %,d", " exg u,%", " pshs %", " pulu %", "q@ equ >%", "q@ set <%", "q@ equ #%", "q@ equ %", "q@ equ <<%", " leax %,y", " lda %,x", " leay %,pcr", " fcb %"],
    "int": [" lda %", " lda <%", " lda >%", " ldb #%", " ldd #%", " lda %,x", " lda <%,y", " lda >%,u", " lda <<%,s", " lda [%]", " lda [%,x]", " lda [<%,x]", " lda [>%,x]", " fcb %", " fdb %+1", " fdb -%", " rmb % & 7",
            " ldx %,pcr", " ldx <%,pcr", "q@ equ >%", "q@ equ <%", "q@ set #%", "q@ equ %", " if %\n fcb 1\n endif", " setdp %", " jmp %", " lbra %", " bra <%", " fqb %", " fcc %"],
    "str": [" fcc %", " fcb %", "q@ equ %", "q@ equ #%", " fcs %,1", " fcn %,%", " ldd #%", " section %", " fdb %", " lda %", " lda >%", " lda <%"],
    "other": [" fcb %", " fdb %", " lda %", "q@ equ %", "q@ equ >%", " ldd #%", " lda [%]", " lda %", " fcc %", " if %\n fcb 1\n endif"],
}
USES6 = {"reg": [" tfm %,u", " tfm u+,%", " addr %,d", " lda [%]"], "int": [" aim #%,<%", " oim #%,>%", " eim #%,%", " tim #3,%,x", " ldbt a,% & 7,% & 7,<%", " ldq #%"], "str": [], "other": []}
GIVEN = {
    "reg": ["x", "y", "u", "s", "x+", "y++", "-s", "--u", "a", "d", "b", "pc", "x-"],
    "int": ["5", "-5", "300", "$ff80", "'a", "1+2*3", "fwd", "-129", "65535", "back", "*", ">5", "<300", "#7", "<<3"],
    "str": ["\"ab\"", "/x y/", "\"\"", "\"12\""],
    "other": ["1.5", "-2.5", "[5]", "[,x]", "", "nosuch", "1/0"],
}


def uses(g, n, tag):
    """A macro argument or symbol used several times, in different ways"""
    for i in range(n):
        h = G(g.r.random(), isas(i))
        t = h.pick(["reg", "reg", "int", "int", "int", "str", "other"])
        v = h.pick(GIVEN[t])
        pool = USES[t] + (USES6[t] if h.isa == "3" else [])
        seq = [h.pick(pool) for _ in range(h.pick([2, 3, 5]))]
        if h.chance(0.5):
            seq += h.r.sample(seq, len(seq))
        way = h.pick(["macro", "macro", "nested", "equ", "set", "late", "via", "again"])
        name = "\\1" if way in ("macro", "nested", "again") else "vv"
        body = [l.replace("%", name).replace("@", str(k)) for k, l in enumerate(seq)]
        if name == "\\1" and h.chance(0.4):
            body.insert(h.r.randrange(len(body) + 1), "in\\1 set 3")
            body.append(" fcc \"&1\"")
        ls = ["back equ 9"]
        if way == "macro":
            ls += ["m macro"] + body + [" endm", " m " + v]
        elif way == "again":
            ls += ["m macro"] + [l.replace(" equ ", " set ") if l.startswith("q") else l for l in body] + [" endm", "vv equ " + v, " m vv", " m " + h.pick(GIVEN[t]), " m vv"]
        elif way == "nested":
            ls += ["m macro"] + body + [" endm", "n macro", " m \\1", " fcb 1", body[0].replace("q", "r"), " endm", " n " + v]
        elif way == "equ":
            ls += ["vv equ " + v] + body
        elif way == "set":
            ls += ["vv set " + v] + body + ["vv set " + h.pick(GIVEN[t])] + [l for l in body if not l.startswith("q")]
        elif way == "late":
            ls += body + ["vv equ " + v]
        else:
            ls += ["uu equ " + v, "vv equ uu"] + body + [l.replace("vv", "uu").replace("q", "r") for l in body]
        ls = "\n".join(ls).split("\n") + ["fwd nop"]
        yield one("%s-%d" % (tag, i), ls, h.isa, extra=["-P", "4"], sym=h.chance(0.5))


# --- C10 ---------------------------------------------------------------------

def placement(h, n, six=False):
    ls = []
    k = 0
    names = h.pick([["a1", "b1"], ["one", "two", "three", "CODE"], ["x1"], ["data", "DATA", "code"]])
    for _ in range(n):
        x = h.r.randrange(14)
        k += 1
        lab = h.pick(["", "", "l%d" % k])
        if x < 3:
            ls.append("%s section \"%s\"" % (lab, h.pick(names)))
        elif x == 3:
            ls.append("%s %s" % (lab, h.pick(["code", "data", "bss", "ram", "auto", "CODE", "Data"])))
        elif x == 4:
            ls.append("%s org %s" % (lab, h.pick(["$%x" % (0x100 * h.r.randrange(0, 0x60)), "*+$100", "fwd", "l0+$800" if False else "$5000"])))
        elif x == 5:
            ls.append("%s put %s" % (lab, h.pick(["$%x" % (0x100 * h.r.randrange(0x60, 0xc0)), "*", "$7000", "fwd+$100"])))
        elif x == 6:
            ls.append("%s rmb %s" % (lab, h.pick(["0", "1", "17", "fwd&7", "300"])))
        elif x == 7:
            ls.append("%s align %s" % (lab, h.pick(["1", "2", "16", "7", "256", "4,$ff", "32,0", "100"])))
        elif x == 8:
            ls.append("%s rzb %s" % (lab, h.pick(["1", "3", "40", "fwd&15"])))
        else:
            ls.append("%s %s" % (lab, h.pick(["fdb *", "fcb %d" % (k & 255), "nop", "ldx #*", "lda fwd", "fdb fwd,*", "jmp *"])))
    ls.append("fwd equ %s" % h.pick(["$2345", "5", "$3000"]))
    return ls


def c10(g, work):
    # all short sequences
    words = [" org $100", " put $300", " rmb 3", " align 8", " section \"s\"", " section \"CODE\"", " fcb 1"]
    for size in (1, 2, 3) if work < 5 else (1, 2, 3, 4):
        for i, seq in enumerate(itertools.product(words, repeat=size)):
            if size == 3 and work < 5 and i % 2 == 0:
                continue
            ls = ["p%d%s" % (k, w) for k, w in enumerate(seq)] + ["q fdb q"]
            yield one("seq-%d-%d" % (size, i), ls, extra=["-P", "5"])
    for i in range(int(280 * work)):
        h = G(g.r.random(), isas(i))
        yield one("random-%d" % i, placement(h, h.pick([4, 8, 16, 30])), h.isa, extra=["-P", h.pick(["5", "8", "12"])], more=["B"], sym=h.chance(0.3))
    # the ends of memory
    for i in range(int(80 * work)):
        h = G(g.r.random())
        a = h.pick([0xffff, 0xfffe, 0xfffd, 0xfff0, 0x10000, 0x10001, -1, -2, 0x1ffff, 0])
        ls = [" org %s" % h.num(a) if h.chance(0.7) else " org 0", h.pick([" fcb 1", " fdb 1", " rmb 1", " rzb 2", " nop", " align 16", "l equ *", " put $100", " section \"t\""]),
              h.pick(["", " fcb 2", " rmb 65535", " rmb 65536", "l2 nop", " org *-2", " put $fffe", " put 65535", " put -1", " put 65536"]), h.pick([" nop", "", " fdb *"])]
        yield one("edge-%d" % i, ls, more=h.pick([[], ["B"], ["C"]]))
    # about the ends of memory, data being all alone, by any way of advancing
    for i in range(int(110 * work)):
        h = G(g.r.random())
        a = h.pick([0xfff0, 0xffff, 0xfffe, 0xff00, 0xfffd, 0x7fff, 0x10000, 0x10010, 0x1ffff, 0x20000, 0x8000, 0xfffffff0])
        ls = h.pick([[" put $%x" % a], [" put $%x" % a], [" org $%x" % (a & 0xffff)], [" org $%x" % (a & 0xffff), " put $%x" % a], [" section \"s\"", " put $%x" % a], [" put %d" % (a - 0x100000000 if a > 0x7fffffff else -(a & 0xff))]])
        for k in range(h.pick([1, 2, 3, 5])):
            ls.append(h.pick(["", "", "l%d" % k]) + h.pick([" rmb %d" % h.pick([1, 2, 16, 0, 15, 255, 256, 17, 0x8000, 3]), " align %d" % h.pick([2, 16, 256, 3, 0x10000]), " fcb %d" % k, " fdb *", " rzb %d" % h.pick([1, 2, 15, 16, 17]), " nop",
                                                           " lda #5", " fill 7,%d" % h.pick([1, 16, 20]), " org *+%d" % h.pick([1, 16]), " put %d" % h.pick([0, 5, 0xffff, 0x10000]), " align 16,%d" % k, " rmb %d" % h.pick([1, 16, 240])]))
        ls.append(" fcb $ee")
        # in raw binary everything between the lowest address and the highest is there
        lo = any(" put " in l and l.split()[-1] in ("0", "5") for l in ls)
        yield one("beyond-%d" % i, ls, extra=["-P", "3"], more=[] if a == 0xfffffff0 else h.pick([["B"], ["B"], ["B"], ["B", "C"], ["H"]]))


# --- C11 / C12 ----------------------------------------------------------------

def layout(h, n, overlap=False):
    """Pieces of data at chosen addresses"""
    ls = []
    addr = h.pick([0, 0x10, 0x100, 0x2000, 0x7ff0, 0xe000])
    pieces = []
    for _ in range(n):
        size = h.pick([1, 1, 2, 3, 5, 15, 16, 17, 29, 30, 31, 32, 33, 34, 47, 63, 64, 65, 96, 127, 200, 254, 255, 256, 257, 300])
        pieces.append([addr, size])
        addr += size + h.pick([0, 0, 0, 1, 2, 15, 31, 32, 33, 100, 255, 256, 1000])
        if addr > 0xf800:
            break
    if overlap and pieces:
        k = h.r.randrange(len(pieces))
        a, s = pieces[k]
        pieces.append([max(0, a + h.pick([-1, 0, s - 1, s, -2, s // 2, s + 1])), h.pick([1, 2, s, s + 1, 1])])
    h.r.shuffle(pieces)
    for k, (a, s) in enumerate(pieces):
        if h.chance(0.1):
            ls.append(" section \"s%d\"" % h.r.randrange(3))
        ls.append((" org $%x" if h.chance(0.6) else " put $%x") % a)
        style = h.r.randrange(5)
        if style == 0:
            ls.append(" rzb %d,%d" % (s, h.r.randrange(256)))
        elif style == 1 and s <= 64:
            ls += [" fcb %d" % h.r.randrange(256) for _ in range(s)]
        elif style == 2 and s % 2 == 0 and s <= 100:
            ls.append(" fdb " + ",".join("$%x" % h.r.randrange(65536) for _ in range(s // 2)))
        elif s > 1 and style == 3:
            j = h.r.randrange(1, s)
            ls += [" rzb %d,%d" % (j, h.r.randrange(256)), " fill %d,%d" % (h.r.randrange(256), s - j)]
        else:
            ls += [" fcb " + ",".join(str(h.r.randrange(256)) for _ in range(len(p))) for p in chunks(range(s), 12)]
    return ls


def c11(g, work):
    fmts = ["B", "D", "C", "S", "H"]
    ends = [[], [" end"], [" end $1234"], [" end st"], [" end 0"], [" end $ffff"], [" end -1"], [" end 65536+5"], [" end st+1"], [" end \"A\""], [" end 1.5"]]
    execs = [[], [], ["-e", "$4567"], ["--exec=1234"], ["-e", "st"], ["-e", "0"], ["-e", "nosuch"], ["--exec", "0x10"], ["-e", "@17"], ["-e", "%101"], ["-e", "65535"]]
    for i in range(int(220 * work)):
        h = G(g.r.random())
        ls = layout(h, h.pick([0, 1, 1, 2, 3, 5, 9]))
        ls.insert(0, "st equ $%x" % h.r.randrange(65536))
        ls += h.pick(ends)
        x = h.pick(execs)
        runs = [run(fmt=f, lst=False, extra=x if h.chance(0.7) else h.pick(execs)) for f in fmts]
        if h.chance(0.3):
            runs[0].argv = [FMT["B"][1] if a == "-B" else a for a in runs[0].argv]
        yield Case("layout-%d" % i, {"a.s": text(ls)}, runs)
    # sizes around the lengths of records, at addresses around the ends of pages
    for s in list(range(0, 70)) + [95, 96, 97, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513]:
        if work < 1 and s % 3:
            continue
        h = G(g.r.random())
        a = h.pick([0, 1, 0xff, 0x100, 0x1234, 0xff00, 0x10000 - s])
        yield Case("size-%d" % s, {"a.s": text([" org $%x" % a if a < 65536 else " org 0", " rzb %d,$a5" % s])}, [run(fmt=f, lst=False) for f in fmts])
    for i, s in enumerate([1000, 4096, 20000, 32767, 32768, 65535, 65536] if work >= 1 else [1000, 4096]):
        yield Case("large-%d" % s, {"a.s": " rzb %d,1\n end 5\n" % s}, [run(fmt=f, lst=False) for f in fmts])
    # data beyond the end of memory
    for i in range(int(30 * work)):
        h = G(g.r.random())
        ls = [" put $%x" % h.pick([0xfff0, 0xfffe, 0xffff, 0xff00]), " rzb %d,7" % h.pick([1, 2, 15, 16, 17, 256, 300])]
        if h.chance(0.5):
            ls = [" fcb 1"] + ls
        yield Case("beyond-%d" % i, {"a.s": text(ls)}, [run(fmt=f, lst=False) for f in fmts])
    for i in range(int(40 * work)):
        lines, files, p = program(g.r.random(), isas(i), 30, ALL)
        files = dict(files)
        files["a.s"] = text(lines)
        yield Case("mixed-%d" % i, files, [run(isas(i), f, lst=False, extra=["-P", "4"]) for f in fmts])


def c12(g, work):
    fmts = ["B", "D", "C", "S", "H"]
    # two pieces in all relative positions, in both orders, by several means
    n = 0
    for a, la in ((0x100, 4),):
        for b in range(0xfa, 0x10a):
            for lb in (1, 2, 6, 12):
                n += 1
                first, second = [" org $%x" % a, " rzb %d,1" % la], [" org $%x" % b, " rzb %d,2" % lb]
                k = n % 4
                ls = first + second if k % 2 else second + first
                if k >= 2:
                    ls = [" section \"p\""] + ls[:2] + [" section \"q\""] + ls[2:]
                yield Case("two-%d" % n, {"a.s": text(ls)}, [run(fmt=fmts[n % 5], lst=False), run(fmt=fmts[(n + 2) % 5], lst=False)])
    # at either end of memory, and within
    for i in range(int(160 * work)):
        h = G(g.r.random())
        size = h.pick([1, 2, 3, 8, 33, 256])
        a = h.pick([0, 1, 2, 0xff, 0x100, 0x7fff, 0x8000, 0xff00, 0x10000 - size - 1, 0x10000 - size, 0x10000 - size, 0x10000 - size + 1])
        ps = [(a, size)]
        for _ in range(h.pick([1, 1, 2, 3])):
            b, s2 = h.pick(ps)
            s3 = h.pick([1, 1, 2, s2, max(1, s2 - 1), s2 + 1, 5])
            b = h.pick([b - s3 - 1, b - s3, b - s3 + 1, b - 1, b, b + 1, b + s2 - 1, b + s2 - s3, b + s2, b + s2 + 1, b + s2 // 2])
            if 0 <= b <= 0xffff:
                ps.append((b, s3))
        h.r.shuffle(ps)
        ls = []
        for b, s3 in ps:
            ls += h.pick([[" org $%x" % b], [" put $%x" % b], [" section \"s%d\"" % h.r.randrange(9), " put $%x" % b], [" org $1000", " put $%x" % b]])
            ls.append(h.pick([" rzb %d" % s3, " fill $aa,%d" % s3, " fcb " + ",".join("1" * s3) if s3 < 30 else " rzb %d,9" % s3]))
        yield Case("ends-%d" % i, {"a.s": text(ls)}, [run(fmt=f, lst=False) for f in h.r.sample(fmts, 2)])
    for i in range(int(280 * work)):
        h = G(g.r.random())
        ls = layout(h, h.pick([2, 3, 5, 9, 14]), h.chance(0.6))
        yield Case("layout-%d" % i, {"a.s": text(ls)}, [run(fmt=f, lst=False) for f in h.r.sample(fmts, 2)])
    for i in range(int(60 * work)):
        h = G(g.r.random())
        ls = placement(h, h.pick([8, 16]))
        ls.append(" put $%x" % h.r.randrange(0, 0x300))
        ls.append(" fcb 1")
        yield Case("placement-%d" % i, {"a.s": text(ls)}, [run(fmt=f, lst=False) for f in h.r.sample(fmts, 2)])


# --- C13 ---------------------------------------------------------------------

def c13(g, work):
    # every character and every byte value through every byte directive
    ops = ["fcb", "fcc", "fcn", "fcs", "fcv", "fci"]
    for op in ops:
        ls = []
        for c in range(32, 127):
            ch = chr(c)
            if ch in "\"\\&":
                ch = "\\" + ch
            ls.append(" %s \"%s\"" % (op, ch))
            if c % 3 == 0:
                ls.append(" %s /%s%s/" % (op, "\\/" if ch == "/" else ch.replace("\\\"", "\""), "z"))
        yield one("chars-" + op, ls)
        yield one("values-" + op, [" %s %s" % (op, ",".join(str(v) for v in part)) for part in chunks(range(-130, 260), 10)])
        yield one("high-" + op, b"".join(b" %s \"a%cb\"\n" % (op.encode(), c) for c in range(128, 256)))
    vals = sorted({s * v for s in (1, -1) for v in EDGE + [65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000001]})
    for op in ("fdb", "fqb", "fcb", "fcs"):
        yield one("edges-" + op, [" %s %d" % (op, v) for v in vals])
        yield one("types-" + op, [" %s %s" % (op, t) for t in ("1.5", "-1.5", "\"a\"", "\"ab\"", "\"abcd\"", "\"abcde\"", "'a", ".99", "255.9", "4294967297.5", "-4294967298.0", "2147483648.0", "99999999999.9", "0.1 + 0.2", "/x/", "1,,2", ",", "*", "<5", ">5", "#5")])
        yield one("bad-" + op, [" %s %s" % (op, t) for t in ("x", "[1]", "x+", "1,x", "nosuch", "", "[1,2]", "-y")], extra=["-P", "2"])
    for n in (1, 2, 3, 10, 50, 200):
        for op in ("fcb", "fdb", "fqb", "fcc", "fcn"):
            yield one("count-%s-%d" % (op, n), [" %s %s" % (op, ",".join(str(k * 37) for k in range(n)))])
    for op in ("rzb", "fzb", "zmb", "bsz"):
        yield one("zero-" + op, [" %s %s" % (op, t) for t in ("0", "1", "2", "33", "3,5", "3,-1", "2,256+7", "1.5", "\"\\n\"", "2,1.5", "2,\"a\"", ",", "2,")])
        yield one("zerobad-" + op, [" %s %s" % (op, t) for t in ("-1", "65537", "x", "1,2,3", "", "1,x", "[1]", "$100000000")], extra=["-P", "2"])
    yield one("fill", [" fill %s" % t for t in ("0,1", "255,3", "-1,2", "256+9,2", "5,0", "\"a\",3", "1.5,2", "7,64", ",3", "3,")])
    yield one("fillbad", [" fill %s" % t for t in ("1", "", "1,2,3", "x,1", "1,x", "1,-1", "1,65537")], extra=["-P", "2"])
    for i in range(int(250 * work)):
        h = G(g.r.random(), isas(i))
        syms = ["s1", "s2"]
        ls = ["s1 equ %s" % h.num(h.value())]
        for _ in range(h.pick([1, 3, 8])):
            ls.append(h.data("", syms))
        for _ in range(h.r.randrange(0, 3)):
            op = h.pick(ops)
            ls.append(h.line("", op, [h.string(h.pick([1, 2, 4, 40])) if h.chance(0.6) else h.const(1) for _ in range(h.r.randrange(1, 8))]))
        ls.append("s2 equ %s" % h.pick([h.num(h.value()), "1.5", "\"q\"", "\"zz\""]))
        yield one("random-%d" % i, ls, h.isa, extra=["-P", "4"])
    # binary files
    for i, n in enumerate([0, 1, 2, 31, 32, 33, 127, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000]):
        h = G(g.r.random())
        data = bytes(h.r.randrange(256) for _ in range(n))
        yield one("bin-%d" % n, ["l includebin \"q.bin\"", " fcb $aa", " includebin /q.bin/" if n < 600 else " nop", "m fdb m-l"], bins={"q.bin": data}, more=["B"])
    yield one("bin-bad", [" includebin \"none.bin\"", " includebin", " includebin 5", " includebin \"q.bin\",1"], bins={"q.bin": b"abc"})
    yield one("bin-none", [" nop", " includebin \"none.bin\""])


# --- C14 ---------------------------------------------------------------------

def c14(g, work):
    for i in range(int(330 * work)):
        h = G(g.r.random())
        feats = ALL if h.chance(0.6) else h.r.sample(ALL, 6)
        ls, files, p = program(g.r.random(), isas(i), h.pick([8, 20, 40]), feats)
        if h.chance(0.3):
            ls = [l.replace(" ", "\t", 1) if h.chance(0.3) else l for l in ls]
        yield one("mixed-%d" % i, ls, isas(i), extra=["-P", h.pick(["3", "4", "5"])], files=files)
    for i in range(int(80 * work)):
        h = G(g.r.random())
        yield one("place-%d" % i, placement(h, 14), 6809, extra=["-P", "6"])
    for i in range(int(80 * work)):
        h = G(g.r.random())
        ls = []
        nest(h, 4, ls, [0])
        yield one("cond-%d" % i, ["k1 equ 1", "k0 equ 0", "fwd1 equ 1", "fwd0 equ 0"] + [l for l in ls if "nosuch" not in l])
    # long and odd lines
    odd = ["\tfcb\t1", "label\tfcb\t1\t; c", "        \tnop", "a1\tb1" if False else "abcdefg\tnop", "abcdefgh\tnop", "abcdefghi\tnop", " fcb\t1,\t2,\t3",
           " fcc \"tab\there\"", " fdb 1,2,3,4,5,6,7,8,9,10,11,12", " rzb 40", " fcc \"" + "long " * 20 + "\"", "; only a comment", "* star", "", "   ",
           "x1 equ -1", "x2 equ 65536+5", "x3 equ 1.5", "x4 equ \"str\"", "x5 equ x", "x6 set 3", "x6 set $12345", "lone", "1", "!", " end_of", " put $7000", " setdp 3",
           " align 16", " align 16,1", "l5 org $300", "l6 section \"k\"", " include \"i.s\"", " opt abc", "l7 opt abc", " export x1", "l8 page", "m1 macro", " fcb 1", " endm", "l9 m1", " m1",
           " if 0", " fcb 1", "hid nop", " else", " fcb 2", " endif", " includebin \"b.bin\""]
    odd = [l for l in odd if l != " end_of"]
    for i in range(int(40 * work)):
        h = G(g.r.random())
        ls = [l for l in odd if h.chance(0.8) or l.strip().split(" ")[0] in ("if", "else", "endif", "endm") or l.startswith("m1") or "m1" in l]
        c = Case("odd-%d" % i, {"a.s": text(ls, last=h.chance(0.8)), "i.s": "\tfcb 5 ; in\n\n* x\ni1 fdb *\n"}, [run(fmt="S")], {"b.bin": bytes(range(70))})
        yield c
    # every character anywhere, tabs in every column
    cs = [chr(c) for c in range(1, 256) if c != 10]
    for i in range(int(12 * work)):
        h = G(g.r.random())
        some = h.r.sample(cs, 60)
        ls = []
        for k in range(20):
            fill = "".join(h.pick([h.pick(some), "a", "\t", " "]) for _ in range(h.pick([1, 3, 8, 20, 60, 90])))
            ls.append(h.pick([";%s\tx", "*%s\tx", " fcb 1 ;%s\tx", "l%d nop \t;%%s\tx" % k, "v%d equ %%d\t; %%%%s\tx" % k % h.value(), " rzb 3 z%s\ty", "\t\t;%s", "! nop ;%s\tx", " fcc /%s/", " opt %s", "ll%d\t; %%s\tend" % k]).replace("%s", fill))
        ls = [l if not l.startswith(" fcc") else " fcc /%s/" % "".join(c for c in l[6:-1] if c not in "~\\&") for l in ls]
        yield one("chars-%d" % i, ls)
    for i in range(int(20 * work)):
        h = G(g.r.random())
        yield one("crlf-%d" % i, text([" fcb 1", "l nop", "", "; c", " fcc \"q\""], eol="\r\n"))


# --- C15 ---------------------------------------------------------------------

def c15_values(h):
    return h.pick([h.num(h.value()), h.num(h.pick(BIG)), "-" + h.num(h.pick(BIG)), "1.5", "0.1 + 0", "1 / 3", "-2.5", "1000000.5", "-.0", "2 / 3 * 1000000000", "1 / 10000000", "123456789 / 1000", "0.1 + 0.2", "-1 / 7", "\"str\"", "\"q\\\"r\"", "/a\\/b/",
                   "\"back\\\\slash\"", "\"nl\\nx\"", "\"&&\"", "x", "pcr", "cc", "\"\\\\1\"", "\"tab\there\"", "0", "* + 1", "1e" if False else "3 * 4", "'a"])


MLINES = [" nop", "l1 nop", "1 nop", " bra 1B", " bra 1F", " lda #\\1", " ldb \\2,x", " sta [\\1,y]", " leax <<5,x", " lda <\\1", " lda >\\1", " lda <-3,x", " lda ,x+", " lda ,x++", " lda ,-x",
          " lda ,--x", " lda [,x++]", " fcb \\1,\\2,&{3}", " fcc \"s\\1e\"", " fcc /a\\/b\"c/", " fcc \"q\\\"r\\\\\"", " fcc \"&1 && &{2}\"", " fcc \"a\\nb\"", " ld\\1 #5", "\\1lab nop", "x\\{1}y_ equ 3", " \\1 5", " if \\1 > 3 && \\2", " endif",
          " fdb 1 + 2 * 3", " fdb (1 + 2) * 3", " fdb -\\1 - -1", " fdb ~\\1 & $ff | 3 ^ 1", " fdb !\\1 == 0", " fdb \\1 ? \\2 : 3", " fdb (\\1 ? 1 : 0) ? 2 : 3", " fdb 7 % 3 / 2", " fdb 1 << 3 >> 1", " fdb 1 < 2 <= 3 > 4 >= 5 != 6",
          " fdb 5 - (3 - 1)", " fdb 8 / (4 / 2)", " fdb * + 2", " fdb 1.5 * 2", " pshs a,b,x", " tfr d,x", " section \"z\"", " export foo", " rmb 2", "", "* comment", "; c", "! nop", " bra <", " bra >", " fdb $1234,@17,%101,0b11,'A", " m2 \\1,\\2", "in macro", " fcb 1", " endm",
          " fcb , , 5", " fcb 1 ,2", " lda a,x", " fdb \"ab\" < \"b\"", " fdb .5 + .25", " \tNOP", " Lda  #1 ; rem", " fcc \"\\1\\2\"", " fdb \\1\\2", " jmp [\\1]", " fdb (1 + (2 + (3 + 4)))", " fdb 100000.125", " fdb 2 - -\\1", " fdb 1 - (-1)", " fdb ~(-1)", " fdb -(-(1))",
          " fdb 1 || 0 && 1", " fdb (1 || 0) && 1", " fdb 1 | (2 ^ 3) & 4", " fdb (1 == 2) != 3", " fdb 3 * (4 % 3)", " fdb -(1 + 2)", " fdb (*) * 2", " fdb 1B", " fdb 2F + 1"]


def c15(g, work):
    for i in range(int(180 * work)):
        h = G(g.r.random(), isas(i))
        ls, names = [], []
        for k in range(h.r.randrange(1, 9)):
            nm = "%s%d" % (h.pick(["v", "V.", "_w", "Foo"]), k)
            ls.append(h.line(nm, h.pick(["equ", "equ", "equ", "set"]), c15_values(h)) if h.chance(0.85) else nm + " nop")
            names.append(nm)
        for nm in names:
            if h.chance(0.6):
                ls.insert(h.r.randrange(len(ls) + 1), h.line("", "export", h.pick([nm, "\"%s\"" % nm if "." not in nm else nm])))
        if h.chance(0.1):
            ls.append(" export nosuch")
        if h.chance(0.1):
            ls.append("zz equ [1,2]")
        ls.append("1 nop")
        yield one("values-%d" % i, ls, h.isa, sym=True, exp=True)
    # every kind of line in an exported macro, one by one
    for i, l in enumerate(MLINES):
        if l in (" endif", " endm", "in macro"):
            continue
        body = [l] + ([" endif"] if l.strip().startswith("if") else [])
        yield one("line-%d" % i, ["m macro"] + body + [" endm", " export m"], sym=True, exp=True)
    # every kind of operand
    kinds = {}
    for op in OPLIST[6309]:
        kinds.setdefault(ISA[6309][op]["k"], []).append(op)
    forms = []
    for k in sorted(kinds):
        ts = sorted({t for op in kinds[k] for t in shapes(6309, ISA[6309][op])})
        forms += [(k, t) for t in g.r.sample(ts, min(len(ts), {"mem": 110, "tfm": 60}.get(k, 24)))]
    forms += [("none", t) for t in ["fcb <<5", "fcb <5,>6,<<7", "ldx [1,2,[3]]", "fcb [1],[2]", "lda [[x]]", "lda #<5", "lda #>5", "lda <#5", "fcb x+,y-", "fcb [x+],-y,--s", "tfr x++,--y", "fcb a,[b,c]", "jmp [<5,x]", "jmp <[5,x]", "fcb []", "fcb [],[]", "lda [,x],y", "fcb <x", "fcb >x+", "fcb ,,"]]
    g.r.shuffle(forms)
    for i, part in enumerate(chunks(forms, 6)):
        h = G(g.r.random())
        ls = [" %s %s" % (h.pick(kinds[k]), t) if k != "none" else " " + t for k, t in part]
        yield one("operand-%d" % i, ["m macro"] + ls + [" endm", " export m"], 6309, sym=True, exp=True)
    # arguments by their numbers
    for i in range(int(25 * work)):
        h = G(g.r.random(), isas(i))
        body = []
        for k in range(h.pick([1, 3, 6])):
            n = h.pick([1, 2, 3, 5, 8, 9, 10, 11, 12, 13, 15, 16, 20, 31, 32, 33, 99, 100, 101, 256])
            at = h.pick(["\\{%d}", "\\{%d}", "\\{%d}", "&{%d}", "\\%d", "\\{0%d}"]) % n
            body.append(h.pick([" fcb %s", " fdb %s+1", " lda #%s", " ldb %s,x", " fcc \"%s\"", " fcc \"a%sb\"", " fcc /%s5/", "q%s equ 1", "%sq equ 2", "x%s5 equ 3", " ld%s 5", " fcb %s0", " fdb v%s", " if %s\n fcb 1\n endif", " section \"s%s\"", " fdb \\1%s", " fdb %s\\1", "! fcb %s"]) % at)
        body = [b for l in body for b in l.split("\n")]
        yield one("position-%d" % i, ["m macro"] + body + [" endm", " export m"] + h.pick([[], [" m " + ",".join(str(j + 1) for j in range(h.pick([3, 12, 40])))]]), sym=True, exp=True)
    for i in range(int(150 * work)):
        h = G(g.r.random(), isas(i))
        ls = ["m2 macro", " fcb \\1", " endm"]
        for k in range(h.r.randrange(1, 4)):
            body = [h.pick(MLINES) for _ in range(h.r.randrange(0, 9))]
            body = [b for b in body if b not in (" endm", "in macro")]
            if h.chance(0.2):
                body += ["in%d macro" % k] + [h.pick(MLINES[:20])] + [" endm"]
            if h.chance(0.5):
                x = Expr(h, ["\\1", "foo", "\\{2}"], h.chance(0.3), h.chance(0.3))
                body += [" fdb " + x.expr(h.pick([1, 2, 3])) for _ in range(3)]
            ls += ["mm%d macro" % k] + body + [" endm"]
            ls.append(" export mm%d" % k)
        if h.chance(0.5):
            ls.append(" export m2")
        yield one("macro-%d" % i, ls, h.isa, sym=True, exp=True)


# --- C16 ---------------------------------------------------------------------

ERRORS = [" bogus", " lda", " lda #", " lda [", " lda 1,2,3", " fdb nosuch", " bra *+500", " fcb x", " rzb -1", "foo", " lda #5)", " 123", "a b", "1a nop", " fcb \"abc", " include \"missing.s\"",
          " includebin \"missing\"", " endm", " endif", " else", " elsif 1", " if", "m macro", " tfr a,[x]", " pshs 5", " ldx ,x+5", " org", " org x", " put", " put -5", " section", " section 5",
          " equ 5", "q equ", "q equ 1,2", " set 1", " align 0", " align -1", " rmb", " rmb -1", " fill 1", " end 1,2", " end x", " setdp", " setdp x", " export", " fcb 1/0", " fcb 5%0", " lda nosuch", "x nop",
          " fdb 9F", " fdb 9B", "foo nop", " mac 1", " exg a", " bra", " lbra 1,2", " jmp #5", " leax 5", " sta #1", " fcb 1,,", "?", " $", "lab: nop", " lda {", " fcb ~x", " fcb \"a\" + \"b\"", " fcb 1 ? x : 2",
          " rzb 65537", " rmb 70000", " fcb \\1", " ldx #&{1}", "\\1 nop", " fcb -", " fcb ()", " fcb 1 +", " fdb 99999999999999999999", " fcb '", " lda <<x", " lda [[x]]", " nop 5", " fcc"]


def garble(h, data):
    """A source with some bytes changed"""
    b = bytearray(data)
    for _ in range(h.pick([1, 1, 2, 5, 20])):
        k = h.r.randrange(5)
        if not b:
            break
        p = h.r.randrange(len(b))
        if k == 0:
            b[p] = h.r.randrange(1, 256)
        elif k == 1:
            del b[p:p + h.pick([1, 2, 10])]
        elif k == 2:
            b[p:p] = bytes(h.pick([b"(", b")", b"[", b"]", b"\"", b"'", b",", b"#", b"<", b">>", b"--", b"\\1", b"&", b"%", b"$", b"@", b"{", b"\t", b"\n", b";", b"/", b"*", b"!"]))
        elif k == 3:
            q = h.r.randrange(len(b))
            b[p:p] = b[q:q + h.pick([1, 5, 40])]
        else:
            b[p] = h.pick(list(range(32, 127)) + [9, 10, 13, 0x80, 0xff])
    return bytes(x for x in b if x != 0)


def c16(g, work):
    n = 0
    # each error alone, in a file, a macro, an included file and in unselected code
    for k, e in enumerate(ERRORS):
        for place in range(5 if work >= 5 else 3):
            place = place if work >= 5 else [0, 1, 2, 3, 4][(k + place * 2) % 5]
            n += 1
            pre = ["foo equ 3", " nop"]
            files = {}
            if place == 0:
                ls = pre + [e, " nop"]
            elif place == 1:
                ls = pre + ["mm macro", " nop", e, " endm", " nop", " mm 1", " nop"]
            elif place == 2:
                files["inc.s"] = text([" nop", "", e])
                ls = pre + ["", " include \"inc.s\"", " nop"]
            elif place == 3:
                ls = pre + [" if 0", e, " endif", " nop"]
            else:
                files["inc.s"] = text(["mi macro", e, " nop", " endm", " mi", " mi 2"])
                ls = [" fcb 1"] + pre + [" include \"inc.s\""]
            yield one("error-%d" % n, ls, files=files, extra=["-P", "3"], sym=True, exp=True)
    # an error on each line of a macro, a file and an included file, after lines of all kinds
    filler = [" nop", "", "* c", " fcb 1", "foo%d nop", " if 0\n bogus\n endif", " if 1\n nop\n else\n bogus\n endif", "in%d macro\n nop\n endm", " small", " include \"s.s\"", "; c", "1 bra 1B", " section \"t\"", " rmb 2", "e%d equ 5"]
    for i in range(int(70 * work)):
        h = G(g.r.random())
        body = "\n".join(h.pick(filler).replace("%d", str(k)) for k in range(h.r.randrange(0, 14))).split("\n")
        tail = "\n".join(h.pick(filler).replace("%d", str(k + 50)) for k in range(h.pick([0, 0, 1, 5]))).split("\n")
        e = h.pick([" bogus", " fdb nosuch", " bra *+500", " lda [", " fcb x", " fcb 1/0", " lda 1,2,3", " if", " pshs 5", "foo", " rmb -1", " tfr a,[x]", " jmp #5", " include \"missing.s\""])
        files = {"s.s": "\n nop\n"}
        ls = ["small macro", " nop", " endm"]
        where = h.r.randrange(5)
        if where < 2:
            ls += ["mm macro"] + [l for l in body + [e] + tail] + [" endm"] + [" nop"] * h.r.randrange(3) + [" mm"]
        elif where == 2:
            files["inc.s"] = text(body + [e] + tail, last=h.chance(0.7))
            ls += [" nop"] * h.r.randrange(3) + [" include \"inc.s\"", " nop"]
        elif where == 3:
            ls += body + [e] + tail
        else:
            files["inc.s"] = text(["mm macro"] + body + [e] + tail + [" endm", "", " mm"])
            ls += [" include \"inc.s\""]
        yield one("line-%d" % i, ls, files=files, extra=["-P", "3"])
    # an error in a line that is assembled from some pass on, or up to some pass
    for i in range(int(110 * work)):
        h = G(g.r.random())
        m = h.r.randrange(0, 5)
        vs = ["v%d equ v%d" % (k, k + 1) for k in range(m)] + ["v%d equ 1" % m]
        e = h.pick(ERRORS + [" include \"missing.s\"", " includebin \"missing\"", " include \"missing.s\"", " bra *+500", " fdb nosuch"])
        ls = [" fcb 1", h.pick([" if v0", " if v0", " if v0", " if !v0"]), e, " endif", " fcb 2"]
        if h.chance(0.25):
            ls = ["mm macro"] + ls + [" endm", " mm"]
        yield one("pass-%d" % i, ls + vs, extra=["-P", h.pick(["12", "3", "5"])], sym=True, exp=True)
    # several errors of different kinds: only the worst count
    for i in range(int(130 * work)):
        h = G(g.r.random(), isas(i))
        ls, files, p = program(g.r.random(), h.isa, h.pick([5, 15, 30]), ALL)
        for _ in range(h.pick([1, 1, 2, 4])):
            ls.insert(h.r.randrange(len(ls) + 1), h.pick(ERRORS + [" lbra *+5", " lda 5,pc", " lda ,-x", " tfr a,x", " exg 1,2", " lda [,x+]"]))
        verb = h.pick([[], [], ["-q"], ["-v"]])
        c = one("several-%d" % i, ls, h.isa, extra=["-P", h.pick(["2", "3"])] + verb, files=files, sym=True, exp=True)
        yield c
    # arbitrary text
    for i in range(int(250 * work)):
        h = G(g.r.random(), isas(i))
        ls, files, p = program(g.r.random(), h.isa, h.pick([3, 8, 20]), ALL)
        data = garble(h, text(ls, last=h.chance(0.9)).encode("latin-1"))
        yield one("garbled-%d" % i, data, h.isa, files=files, extra=["-P", "3"], sym=True, exp=True)
    # files that cannot be read or written
    src = ["foo equ 5", " export foo", " fdb foo", " end foo"]
    for f in ("B", "D", "C", "S", "H"):
        for where in ("/dev/full", "nodir/x", "."):
            for opt in ("-o", "-l", "-s", "-E"):
                if f != "B" and opt != "-o":
                    continue
                n += 1
                yield Case("write-%d" % n, {"a.s": text(src)}, [Run(["-" + f, opt, where, "a.s"], [where])])
    for big in (1, 5000):
        # larger than the output's buffer
        n += 1
        yield Case("write-%d" % n, {"a.s": " rzb %d,1\n" % big}, [Run(["-B", "-o", "/dev/full", "a.s"], ["/dev/full"])])
    for argv, files in ((["none.s"], {}), (["a.s", "none.s"], {"a.s": " nop\n"}), (["none.s", "a.s"], {"a.s": " nop\n"}), (["-o", "x.out", "none.s"], {}),
                        ([], {}), (["-o", "x.out"], {}), (["-B", "-l", "x.lis", "a.s", "nodir/b.s"], {"a.s": " fcb 1\n"}), (["a.s", "a.s"], {"a.s": " fcb 1\n"}),
                        (["a.s"], {"a.s": ""}), (["-o", "x.out", "-s", "x.sym", "-E", "x.exp", "-l", "x.lis", "a.s"], {"a.s": ""}),
                        (["-o", "x.out", "a.s"], {"a.s": "\n"}), (["-o", "x.out", "a.s"], {"a.s": " nop"}), (["-o", "x.out", "-l", "x.lis", "a.s"], {"a.s": " nop\n\n\n"})):
        n += 1
        yield Case("files-%d" % n, files, [Run(argv)])
    # directories for files
    for d in (".", "..", "./"):
        for argv in ([d], ["-o", "x.out", d], ["-o", "x.out", "-l", "x.lis", "a.s", d], ["-o", "x.out", d, "a.s"]):
            n += 1
            yield Case("directory-%d" % n, {"a.s": " fcb 1\n"}, [Run(argv)])
        n += 1
        yield one("directory-%d" % n, [" fcb 1", " include \"%s\"" % d, " fcb 2"], sym=True, exp=True)
        n += 1
        yield one("directory-%d" % n, [" fcb 1", " includebin \"%s\"" % d, " fcb 2"], sym=True, exp=True)
    # errors found only when the results are written
    for ls, x in (([" org 5", " fcb 1", " org 5", " fcb 2"], []), ([" export nosuch", " fcb 1"], []), ([" fcb 1"], ["-e", "nosuch"]), ([" put $fff0", " rzb 20"], []),
                  (["q equ [1]", " export q"], []), ([" fcb 1"], ["-e", "q"]), (["q equ x", " fcb 1"], ["-e", "q"]), (["q equ \"ab\"", " fcb 1"], ["-e", "q"])):
        for f in ("B", "C", "H"):
            n += 1
            yield one("late-%d" % n, ls, fmt=f, extra=x, sym=True, exp=True)
    for d in range(1, 11):
        files = {"i%d.s" % k: " fcb %d\n include \"i%d.s\"\n fcb %d\n" % (k, k + 1, k + 100) for k in range(d)}
        files["i%d.s" % d] = " fcb 99\n"
        yield one("depth-%d" % d, [" include \"i0.s\"", " fcb 1"], files=files)


# --- C17 ---------------------------------------------------------------------

def cuts(h, ls):
    """Positions in a program at which it can be cut: no IF or MACRO is open"""
    depth = 0
    pos = [0]
    for i, l in enumerate(ls):
        w = l.replace("\t", " ").split(";")[0].split()
        w = [x.lower() for x in w]
        if not l.startswith((" ", "\t")):
            w = w[1:]
        if w and w[0] in ("if", "macro"):
            depth += 1
        if w and w[0] in ("endif", "endm"):
            depth -= 1
        if depth == 0:
            pos.append(i + 1)
    return pos


def c17(g, work):
    feats = [f for f in ALL if f not in ("end", "include")]
    for i in range(int(140 * work)):
        h = G(g.r.random())
        sections = h.chance(0.4)
        ls, _, p = program(g.r.random(), isas(i), h.pick([8, 20, 40]), feats if sections else [f for f in feats if f != "section"])
        whole = text(ls)
        # cut into files
        pos = sorted(h.r.sample(cuts(h, ls), min(h.pick([1, 2, 3]), len(cuts(h, ls)))))
        parts = [ls[a:b] for a, b in zip([0] + pos, pos + [len(ls)])]
        names = ["f%d.s" % k for k in range(len(parts))]
        files = {"whole.s": whole}
        for nm, part in zip(names, parts):
            if not part:
                part = [""]
            tail = [] if h.chance(0.7) else [" end", " fcb 77", " bogus here", " if 1"]
            files[nm] = text(part + tail)
        yield ("pair", Case("cut-%d" % i, {k: v for k, v in files.items() if k != "whole.s"}, [run(isas(i), "B", extra=["-P", "4"], files=names)]),
               Case("cut-%d-whole" % i, {"whole.s": whole}, [run(isas(i), "B", extra=["-P", "4"], files=["whole.s"])]))
        # put a part into an included file; sections are restored afterwards
        ls2, _, p2 = program(g.r.random(), isas(i), h.pick([8, 20]), [f for f in feats if f != "section"])
        cp = sorted(h.r.sample(cuts(h, ls2) * 2, 2))
        inner, outer = ls2[cp[0]:cp[1]], ls2[:cp[0]] + [" include \"inc.s\""] + ls2[cp[1]:]
        fs = {"a.s": text(outer), "inc.s": text(inner)}
        if h.chance(0.3) and len(inner) > 3:
            c2 = [c for c in cuts(h, inner)]
            j = h.pick(c2)
            fs["inc2.s"] = text(inner[j:])
            fs["inc.s"] = text(inner[:j] + [" include /inc2.s/"])
        yield ("pair", Case("include-%d" % i, fs, [run(isas(i), "B", extra=["-P", "4"])]),
               Case("include-%d-whole" % i, {"whole.s": text(ls2)}, [run(isas(i), "B", extra=["-P", "4"], files=["whole.s"])]))
    for i in range(int(160 * work)):
        h = G(g.r.random())
        files = {}
        n = h.r.randrange(1, 5)
        for k in range(n):
            body = []
            for _ in range(h.r.randrange(0, 6)):
                body.append(h.pick([" fcb %d" % (k * 16 + len(body)), "x%d_%d nop" % (k, len(body)), " section \"s%d\"" % h.r.randrange(2), " include \"f%d.s\"" % h.r.randrange(0, n + 1),
                                    " include \"f%d.s\"" % min(n, k + 1), "1 nop", " fdb 1B", " fdb 1F", " end", " end $123", " org *+$10", " setdp %d" % k, " lda $101",
                                    "mm%d macro\n fcb \\1\n endm\n mm%d 5" % (k, k), " if %d" % (len(body) % 2), " endif", " fdb y%d" % h.r.randrange(n), "", " Include /f%d.s/" % min(n, k + 1)]))
            if h.chance(0.7):
                body = balance(body)
            files["f%d.s" % k] = text(["y%d" % k] * (h.chance(0.2)) + body, last=h.chance(0.8))
        main = ["f0.s"] + (["f%d.s" % h.r.randrange(n)] if h.chance(0.4) else [])
        yield Case("tree-%d" % i, files, [run(6809, "S", extra=["-P", "3"], files=main)])
    for d in range(1, 11):
        files = {"i%d.s" % k: " fcb %d\n include \"i%d.s\"\n fcb %d\n" % (k, k + 1, k + 100) for k in range(d)}
        files["i%d.s" % d] = " fcb 99\n"
        files["a.s"] = " include \"i0.s\"\n fcb 1\n"
        yield Case("depth-%d" % d, files, [run()])
    # lines of all lengths, about the sizes of buffers most of all
    for i, z in enumerate([120, 1023, 8191, 16383, 16400] if work < 5 else [120, 127, 128, 255, 511, 1023, 4095, 8190, 8191, 8192, 16381, 16382, 16383, 16384, 16385, 16400, 32767, 32768]):
        for k, l in enumerate([" fcb 3 ;%s", " fcc \"%s\"", "%s fcb 5", " fcb \" \"%s,7", "%s", " fcb 0%s"]):
            if z > 5000 and k not in (0, 4) and (k != 1 or z > 8192):
                continue
            x = [" ", "x", " ", " ", "* ", "0"][k]
            l %= ((x * z)[:z - len(l) + 2] if k != 4 else "* " + "y" * (z - 2))
            assert len(l) == z
            if k == 1 and z > 5000:
                l = l.replace("x" * 6000, "x" * 5991 + "\",1,2 ; ", 1)[:-1]    # not so much data
            files = {"i.s": text([l, " fcb 8"]), "a.s": text([" fcb 1", " include \"i.s\"", l, "b equ *", " fcb b"])}
            yield Case("long-%d-%d" % (z, k), files, [run()])
    # names that are nearly the same
    for i in range(int(24 * work)):
        h = G(g.r.random())
        names = h.r.sample(["i.s", "I.s", "i.S", "I.S", "i", "i.", "i.s2", "i.s ", " i.s", "ii.s", "i-s", "i_s", "i.s.s", "is"], h.r.randrange(2, 7))
        files = {nm: " fcb %d\n" % k + (" include \"%s\"\n" % h.pick(names[k + 1:] + [nm + "x"] if h.chance(0.2) else names[k + 1:]) if k + 1 < len(names) and h.chance(0.4) else "") + " fcb %d\n" % (k + 50)
                 for k, nm in enumerate(names)}
        ls = [" include %s" % (h.pick(["\"%s\"", "/%s/"]) % h.pick(names)) for _ in range(h.r.randrange(2, 8))]
        files["a.s"] = text(ls)
        yield Case("names-%d" % i, files, [run(files=["a.s"] + ([h.pick(names)] if h.chance(0.3) else []))])
    # and of the same names in several directories
    for i in range(int(30 * work)):
        h = G(g.r.random())
        names = h.r.sample(["i.s", "j.s", "d/i.s", "e/i.s", "d/e/i.s", "e/d/i.s", "d/j.s", "d.d/i.s", "e/j.s", "i/i.s", "d e/i.s"], h.r.randrange(2, 6))
        files, bins = {}, {}
        for k, nm in enumerate(names):
            files[nm] = " fcb %d\n" % k
            if k + 1 < len(names) and h.chance(0.4):
                files[nm] += " include \"%s\"\n" % h.pick(names[k + 1:])
            if h.chance(0.3):
                bins[nm.replace(".s", ".bin")] = b"bin%d" % k
                files[nm] += " includebin \"%s\"\n" % nm.replace(".s", ".bin")
            files[nm] += " fcb %d\n" % (k + 50)
        files["a.s"] = text([" include \"%s\"" % h.pick(names + [nm for nm in ("i.s", "d/i.s") if h.chance(0.05)]) for _ in range(h.r.randrange(2, 8))])
        yield Case("dirs-%d" % i, files, [run(files=["a.s"] + ([h.pick(names)] if h.chance(0.3) else []))], bins)
    yield Case("self", {"a.s": " fcb 1\n include \"a.s\"\n fcb 2\n"}, [run()])
    yield Case("twice", {"a.s": " include \"b.s\"\n include \"b.s\"\n", "b.s": " fcb 1\n\n* x\n fdb *\n end\n fcb 2\n"}, [run()])
    yield Case("end-in-macro", {"a.s": "m macro\n fcb 1\n end\n fcb 2\n endm\n m\n"}, [run()])
    yield Case("end-in-if", {"a.s": " if 0\n end\n endif\n fcb 1\n"}, [run()])


def balance(body):
    out, depth = [], 0
    for l in body:
        if l == " if 0" or l == " if 1":
            depth += 1
        if l == " endif":
            if depth == 0:
                continue
            depth -= 1
        out.append(l)
    return out + [" endif"] * depth


# --- C18 ---------------------------------------------------------------------

def c18(g, work):
    src = text(["st equ $1234", " org $2000", " lda $12", " ldb $1234", " lbra *+5", " fdb va,vb", " fcb vb ? 1 : 2", " if vc", " fcb 3", " else", " fcb 4", " endif", "va1 nop", " end $3333"])
    src9 = text([" lda $12", " lbra *+5", "e1 nop", " fdb e1", "e equ 5", " fdb e"])
    src3 = text([" lda $12", " tfr w,v", " ldq #5", " muld #3"])
    chain = text(cascade(G(1), 5))
    opts = {"fmt": ["-B", "-D", "-C", "-S", "-H", "--bin", "--dragondos", "--coco", "--srec", "--hex", "--bi", "--dr", "--c", "--sr", "--hex"],
            "isa": ["-8", "-9", "-3", "--6809", "--6309", "--68", "--63"],
            "verb": ["-q", "-v", "--quiet", "--verbose", "--qui", "--verb"],
            "exec": [["-e", "$4000"], ["-e1234"], ["--exec", "st"], ["--exec=0x55"], ["--exe=@77"], ["-e", "va1"], ["-e", "0b11"], ["-e", "%111"]],
            "def": [["-d", "va"], ["-dvb=5"], ["--define", "va=$10"], ["--define=vb=0x20"], ["-d", "vc=1"], ["-d", "vc=0"], ["-d", "va=@17"], ["-d", "vb=%101"], ["--def=vb=0b11"], ["-d", "unused=9"],
                    ["-d", "vd=12345678901"], ["-d", "va=65536"]],
            "setdp": [["--setdp", "0"], ["--setdp=$12"], ["--setdp", "18"], ["--setdp", "-1"], ["--set=0x12"], ["--setdp", "256"], ["--setdp", "$112"]],
            "P": [["-P", "2"], ["-P3"], ["--max-passes", "12"], ["--max-passes=255"], ["--max=5"], ["-P", "7"], ["-P", "0x10"], ["-P", "017"], ["-P0xff"], ["-P", "+4"], ["-P", " 5"], ["-P", "0X3"]]}
    bad = [["-x"], ["--nosuch"], ["-P", "1"], ["-P", "256"], ["-P", "0"], ["-P", "x"], ["-P", ""], ["--setdp", "x"], ["-d", "q=x"], ["-d", "q="], ["-o"], ["--bin=1"], ["--e"], ["--s", "1"], ["-P", "-5"], ["--max-passes"], ["-e"],
           ["--6809=1"], ["--setdp", ""], ["-P", "1000"], ["--ver"], ["-P", "99999"], ["-P", "0x100"], ["-P", "01"], ["-P", "4294967298"], ["-P", "0x"]]
    info = [["--help"], ["--version"], ["--h"], ["--vers"], ["--hel"]]
    # each alone
    n = 0
    for name in ("a.s", "b.s", "c.s"):
        for kind in opts:
            for o in opts[kind]:
                o = [o] if isinstance(o, str) else o
                n += 1
                yield Case("alone-%d" % n, {"a.s": src, "b.s": src9, "c.s": src3}, [Run(o + ["-d", "va=1", "-d", "vb=2", "-S", "-o", "x.out", "-l", "x.lis", name] if kind != "fmt" else o + ["-dva=7", "-dvb", "-o", "x.out", name])])
    for o in bad + info:
        for k in (0, 1):
            n += 1
            a = ["-o", "x.out", "b.s"]
            yield Case("refused-%d" % n, {"b.s": src9}, [Run(o + a if k == 0 else a + o)])
    for k in range(2, 12):
        n += 1
        yield Case("passes-%d" % k, {"a.s": chain}, [Run(["-P", str(k), "-o", "x.out", "a.s"])])
    # combinations, in any order
    for i in range(int(330 * work)):
        h = G(g.r.random())
        name = h.pick(["a.s", "a.s", "b.s", "c.s", "d.s"])
        groups = []
        for kind in opts:
            for _ in range(h.pick([0, 1, 1, 2])):
                o = h.pick(opts[kind])
                groups.append([o] if isinstance(o, str) else o)
        groups.append(h.pick([["-o", "x.out"], ["-ox.out"], ["--output", "x.out"], ["--output=x.out"], ["--out=x.out"]]))
        if h.chance(0.5):
            groups.append(h.pick([["-l", "x.lis"], ["-lx.lis"], ["--listing=x.lis"], ["--li", "x.lis"]]))
        if h.chance(0.4):
            groups.append(h.pick([["-s", "x.sym"], ["--symbols=x.sym"], ["--sy", "x.sym"]]))
        if h.chance(0.3):
            groups.append(h.pick([["-E", "x.exp"], ["--exports", "x.exp"], ["--exp=x.exp"]]))
        if h.chance(0.06):
            groups.append(h.pick(bad))
        if h.chance(0.3):
            x = "".join(h.r.sample("BDCSHqv89", h.r.randrange(1, 4)))
            groups.append(["-" + x + h.pick(["", "", "P4", "e5", "dvb"])])
        groups.append([name])
        h.r.shuffle(groups)
        if h.chance(0.1):
            k = [j for j, gr in enumerate(groups) if gr == [name]][0]
            groups = groups[:k] + groups[k + 1:] + [["--", name]]
        ls, files, p = program(5 + i % 7, 6809, 12, ["dp", "equ", "local"])
        if "a.s" == name and h.chance(0.7):
            groups = [["-d", "va=3"], ["-d", "vb=0"]] + groups if not any("va" in x or "vb" in x for gr in groups for x in gr) else groups
        yield Case("combined-%d" % i, {"a.s": src, "b.s": src9, "c.s": src3, "d.s": text(ls)}, [Run([x for gr in groups for x in gr])])


# --- C19 ---------------------------------------------------------------------

def c19(g, work):
    fmts = ["B", "D", "C", "S", "H"]
    for i in range(int(200 * work)):
        h = G(g.r.random(), isas(i))
        k = h.r.randrange(4)
        files = {}
        if k < 2:
            ls, files, p = program(g.r.random(), h.isa, h.pick([10, 25, 45]), ALL)
        elif k == 2:
            ls = layout(h, h.pick([1, 3, 6]), h.chance(0.2))
        else:
            ls = sized(h, 12)
        files = dict(files)
        files["a.s"] = text(ls)
        extra = ["-P", h.pick(["3", "4", "12"])]
        runs = []
        for _ in range(6):
            runs.append(run(h.isa, h.pick(fmts), h.chance(0.9), h.chance(0.5), h.chance(0.5), h.chance(0.5), extra + h.pick([[], ["-q"], ["-v"], ["-v", "-q"]])))
        runs.append(runs[0])
        yield Case("vary-%d" % i, files, runs)


# --- C20 ---------------------------------------------------------------------

BADSHAPES = ["", "#5", "#$1234", "5", "$1234", "<5", ">5", "<<5", "x", "a", "d", "w", "e", "q", "v", "cc", "dp", "pc", "pcr", ",x", "5,x", "a,x", "x,a", "x,y", "a,b", "d,x", "e,x", "f,x", "w,x", ",w", ",e", ",a", ",d", ",v", ",q", ",dp", "5,w", "5,e",
             "e,y", ",x+", ",x++", ",-x", ",--x", ",x-", "x+,y+", "x-,y-", "x+,y", "x,y+", "x+", "-x", "x++", "[5]", "[,x]", "[5,x]", "[a,x]", "[,x+]", "[,x++]", "[,-x]", "[,--x]", "[#5]", "[x]", "[x,y]", "[<<5,x]", "[5,x,y]", "[]", "[[5]]", "[5],x", "[,w]", "[w,x]",
             "[,w++]", ",w++", ",w+", ",-w", ",--w", "5,x+", "5,-x", "a,x+", "1,x++", "0,x+", "0,x++", "5,pc", "5,pcr", "a,pc", "d,pcr", ",pc", ",pcr", ",pc+", ",pcr++", "<5,x", ">5,x", "<<5,x", "<<100,x", "<<5,pcr", "<<5,w", "<5,w", ">5,w", "#5,x", "#5,5", "#5,5,x", "5,5", "5,5,x", "1,2,3",
             "#5,#6", "a,1,2,5", "b,7,7,5", "cc,0,0,0", "d,1,2,5", "a,8,2,5", "a,1,8,5", "a,1,2", "x,1,2,5", "1,2,3,4", "a,1,2,x", "a,x,2,5", "a,b,x,y,u,s", "s", "u", "u,s", "a,b,cc,dp,x,y,pc", "0,x", "x,0", "0,0", "1,x", "x,1", "16,x", "\"a\"", "\"a\",x", "#\"a\"", "1.5",
             "1.5,x", "#1.5", "x,1.5", "[1.5,x]", "*+5", ">*+5", "<*+5", "5,", ",5", ",", "#", "x+,y-", "d+,w+", "pc+,x+", "a+,b+", "1+,x", "x,y,u", "d,w", "a,w", "e,f", "e,a", "w,v", "0,w", "pcr,x", "q,d", "x,[5]", "a,[x]", "-5", "65536", "#-1", "$ff", "*+300", "5 + x", "nosuch1", "#x", "x,#5", "<x", ">x", "<<x", ">a,x", "#a,x"]


def c20(g, work):
    h = G(g.r.random())
    for isa in (6809, 6309):
        others = sorted(set(OPLIST[6309]) - set(OPLIST[6809])) if isa == 6809 else []
        lines = []
        for op in OPLIST[isa]:
            sh = BADSHAPES if work >= 5 else h.r.sample(BADSHAPES, int((16 if isa == 6809 else 14) * min(work, 4)))
            lines += [" %s %s" % (op, t) for t in sh]
        for op in others:
            lines += [" %s %s" % (op, t) for t in h.r.sample(BADSHAPES, 3)]
        lines = [l for l in lines if "nosuch1" not in l or h.chance(0.02)]
        h.r.shuffle(lines)
        for i, part in enumerate(chunks(lines, 50)):
            # -P 2: in the first pass nothing is undefined that is not so later
            yield one("shapes%d-%d" % (isa, i), [" org $1000"] + part, isa, extra=["-P", "2"] + h.pick([[], ["-v"], ["-q"]]))
        # those not in error, for which there may be a warning or code: few at a time
        few = h.r.sample(lines, min(len(lines), int(450 * work)))
        for i, part in enumerate(chunks(few, 2)):
            yield one("few%d-%d" % (isa, i), [" org $1000"] + part, isa, extra=["-P", "2"] + h.pick([[], ["-v"], ["-q"]]))
    # names of the 6309's registers and instructions are ordinary names on the 6809
    ls = []
    for r in ("e", "f", "w", "q", "v"):
        ls += ["%s equ %d" % (r, len(r) + 5), " lda %s" % r, " fcb %s" % r, " ldx #%s" % r, " lda %s,x" % r, " lda [%s]" % r]
    yield one("names-6809", ls)
    yield one("names-6309", ls, 6309)
    for i, op in enumerate(sorted(set(OPLIST[6309]) - set(OPLIST[6809]))):
        if work < 1 and i % 3:
            continue
        e = ISA[6309][op]
        t = shapes(6309, e)[0]
        yield one("only6309-%d" % i, [" %s %s" % (op, t)], 6809, extra=["-P", "2"])
        yield one("macro6309-%d" % i, ["%s macro" % op, " fcb 1", " endm", " %s" % op, "l%s equ 5" % op], 6809, extra=["-P", "3"])


    # every two registers, in every mode, where registers are paired
    rs = REGS[6309] + ["0", "5", "nosuch"[:0] or "1.5"]
    pairs = [(a, b) for a in rs for b in rs]
    for op, modes in (("tfm", ["%s+,%s+", "%s-,%s-", "%s+,%s", "%s,%s+", "%s,%s", "-%s,%s", "%s++,%s+", "%s-,%s+", "%s,%s-", "%s-,%s"]), ("tfr", ["%s,%s"]), ("exg", ["%s,%s"]), ("addr", ["%s,%s"]),
                      ("cmpr", ["%s,%s"]), ("pshs", ["%s,%s"]), ("pulu", ["%s,%s"]), ("band", ["%s,1,2,%s"]), ("lda", ["%s,%s", "[%s,%s]"]), ("stbt", ["%s,%s,0,5"])):
        for m in modes:
            for part in chunks([" %s %s" % (op, m % (h.anycase(a), h.anycase(b))) for a, b in pairs], 60):
                n = h.r.randrange(1 << 30)
                if work < 5 and h.chance(0.5) and op not in ("tfm",):
                    continue
                yield one("registers-%s-%d" % (op, n), [" org $1000"] + part, 6309, extra=["-P", "2"] + h.pick([[], ["-v"]]))
                if h.chance(0.3):
                    yield one("registers9-%s-%d" % (op, n), [" org $1000"] + part, 6809, extra=["-P", "2"])
    for part in chunks([" %s %s,%s,%s,%s" % (h.pick(["band", "biand", "bor", "bior", "beor", "bieor", "ldbt", "stbt"]), a, b, c, d)
                        for a in ["cc", "a", "b", "0", "1", "2", "3", "4", "-1", "x", "d", "1.5", "a+", "[5]", ""] for b in ["0", "7", "8", "-1", "x", ""] for c in ["0", "7", "8", "-1", "1.5"]
                        for d in h.r.sample(["5", "$ff", "$1234", "<5", "x", ",x", "[5]", "\"s\"", "-1", ">5"], 2)], 45):
        yield one("bits-%d" % h.r.randrange(1 << 30), [" org $1000"] + part, 6309, extra=["-P", "2"])
    # only just out of range, and numbers for registers: an error hides the warnings, so few at a time
    for i in range(int(40 * work)):
        ls = []
        for _ in range(h.pick([1, 1, 2])):
            f = [h.pick(["cc", "a", "b"]), h.pick(["0", "3", "7"]), h.pick(["0", "5", "7"]), h.pick(["5", "$80", "0"])]
            k = h.pick([0, 1, 1, 2, 2, 3])
            f[k] = h.pick([["0", "1", "2", "3", "4", "e", "d", "cc+"], ["8", "-1", "9", "16", "256", "a", "x", "\"\"", "1.5", "[1]"], ["8", "-1", "9", "15", "64", "b", "x", "\"1\"", "0.5"], ["\"a\"", "b", "256", "-1", "65536", "$1ff", "<5"]][k])
            ls.append(" %s %s" % (h.pick(["band", "biand", "bor", "bior", "beor", "bieor", "ldbt", "stbt"]), ",".join(f)))
        yield one("bound-%d" % i, ls, 6309, extra=h.pick([[], ["-v"], ["-q"]]))
    for i in range(int(90 * work)):
        six = h.chance(0.6)
        ls = []
        for _ in range(h.pick([1, 1, 2])):
            op = h.pick(["tfr", "exg"] if not six else ["tfr", "exg", "addr", "cmpr", "sbcr", "tfm"])
            o = [h.pick(["0", "0", "1", "5", "8", "11", "12", "13", "15", "16", "-1", "256"]), h.pick(REGS[6309] if six else REGS[6809])]
            h.r.shuffle(o)
            if h.chance(0.3):
                o = [h.pick(REGS[6309] if six else REGS[6809]), h.pick(REGS[6309] if six else REGS[6809])]
            ls.append(" %s %s" % (op, (h.pick(["%s+,%s+", "%s+,%s"]) if op == "tfm" else "%s,%s") % tuple(o)))
        yield one("numeric-%d" % i, ls, 6309 if six else 6809, extra=h.pick([[], ["-v"], ["-q"]]))
    # two registers for which there is no error, whatever is said of them
    for isa in (6809, 6309):
        rr = [r for r in REGS[isa] if r not in ("pcr", "q")] + (["0"] if isa == 6309 else [])
        for op in (["tfr", "exg"] if isa == 6809 else ["tfr", "exg", "addr", "adcr", "subr", "sbcr", "andr", "orr", "eorr", "cmpr"]):
            ls = [" %s %s,%s" % (op, h.anycase(a), h.anycase(b)) for a in rr for b in rr]
            if work < 5 and op not in ("tfr", "exg"):
                ls = h.r.sample(ls, len(ls) // 3)
            yield one("warned-%d-%s" % (isa, op), ls, isa, extra=h.pick([[], ["-v"]]))
            if op not in ("tfr", "exg"):
                continue
            for a in rr:
                yield one("warned-%d-%s-%s" % (isa, op, a), [" %s %s,%s" % (op, a, b) for b in rr], isa, extra=h.pick([[], [], ["-v"], ["-q"]]))
    # those that there are
    for a in ("cc", "a", "b", "0", "1", "2", "3", "7"):
        for b in range(8):
            yield one("bit-%s-%d" % (a, b), [" %s %s,%d,%d,$%x" % (o, a, b, c, 16 * b + c) for c, o in enumerate(["band", "biand", "bor", "bior", "beor", "bieor", "ldbt", "stbt"])], 6309)
    for op, ms in (("tfm", ["%s+,%s+", "%s-,%s-", "%s+,%s", "%s,%s+"]), ("tfr", ["%s,%s"]), ("subr", ["%s,%s"])):
        for m in ms:
            for a in rs[:-1]:
                yield one("each-%s-%s-%d" % (op, a, ms.index(m)), [" %s %s" % (op, m % (a, b)) for b in ("d", "x", "y", "u", "s")] if op == "tfm" else [" %s %s" % (op, m % (a, a))], 6309, extra=["-v"])


# Every directive with operands of every kind
ARGS = ["5", "0", "1", "-1", "256", "65536", "65537", "$12345", "1.5", "-1.5", "\"s\"", "/two words/", "\"\\n\"", "x", "pc", "foo", "fwd", "nosuch", "*", "[5]", "[1,2]", "#5", "<5", ">5", "<<5", "x+", "-y", "fl", "st", "",
        "(1 + 2)", "1B", "2F", "99999999999", "\"i.s\"", "\"b.bin\"", "'a"]
GROUPS = {
    "data": ["fcb", "fcc", "fcn", "fcv", "fci", "fcs", "fdb", "fqb", "rzb", "fzb", "zmb", "bsz", "fill", "rmb", "align", "includebin"],
    "place": ["org", "put", "section", "code", "data", "bss", "ram", "auto", "rmb", "align", "setdp"],
    "name": ["equ", "set", "export", "macro", "endm", "org"],
    "file": ["include", "lib", "end", "includebin"],
    "none": ["page", "opt", "spc", "ttl", "sttl", "nam", "name", "nop", "if", "elsif", "else", "endif"],
}


def directives(g, work, groups, tag, share):
    """Directives with up to three operands, with and without labels"""
    files = {"i.s": " fcb 1\ni1 fdb i1\n"}
    bins = {"b.bin": b" fcb 9\n\x80\xff"[:7]}
    pre = ["foo equ 3", "fl equ 2.5", "st equ \"ab\"", " org $100", "1 nop"]
    post = ["2 nop", "fwd equ 4", " fdb *"]
    todo = []
    for op in [o for k in groups for o in GROUPS[k]]:
        lists = [[a] for a in ARGS] + [None] + [[a, b] for a in ARGS for b in ARGS] + [["1", "2", "3"], ["foo", "st", "1"], ["1", "2", "3", "4"]]
        some = lists[:len(ARGS) + 1] + g.r.sample(lists[len(ARGS) + 1:], min(len(lists) - len(ARGS) - 1, int(35 * work)))
        for a in some:
            for lab in g.r.sample(["", "", "q", "1", "foo", "x"], 1 if work < 5 else 2):
                todo.append((op, a, lab))
    g.r.shuffle(todo)
    n = 0
    single = todo[:int(len(todo) * min(1, share))]
    for op, a, lab in single:
        n += 1
        l = g.line(lab, op, ",".join(a) if a else None)
        if op == "if":
            l += "\n fcb 1\n endif"
        if op == "macro":
            l += "\n fcb 1\n endm"
        # (a plain binary would be filled up to an address of gigabytes)
        far = op in ("put", "org") and a and (a[0][:1] == '"' or len(a[0]) > 8)
        yield one("%s-%d" % (tag, n), pre + [l] + post, isas(n), ["-P", "3"], "S" if far else g.pick("SSB"), sym=True, exp=True, files=files, bins=bins)
    many = [t for t in todo if t[0] not in ("end", "if", "elsif", "else", "endif", "macro", "include", "lib")]
    for part in chunks(many, 25):
        n += 1
        # those in error only
        yield one("%s-%d" % (tag, n), pre + [g.line(lab if lab != "q" else "q%d" % k, op, ",".join(a) if a else None) for k, (op, a, lab) in enumerate(part)] + post, isas(n), ["-P", "2"],
                  files=files, bins=bins)


DIRECTIVES = {"C09": (["name"], 0.6), "C10": (["place"], 0.5), "C13": (["data"], 0.35), "C14": (["data", "place", "name", "file", "none"], 0.12), "C16": (["data", "place", "name", "file", "none"], 0.2),
              "C17": (["file"], 0.8), "C06": (["none"], 0.3)}


# Of what there is more in programs made of everything, for each property
TASTE = {
    "C01": {"equ": 10, "junction": 4, "org": 6, "section": 6, "branch": 10, "reserve": 8},
    "C02": {"instr": 70, "branch": 5, "data": 3},
    "C03": {"instr": 50, "dp": 16, "section": 8},
    "C04": {"branch": 40, "local": 8, "section": 5},
    "C05": {"expr": 40, "equ": 10, "set": 8},
    "C06": {"if": 28, "condmacro": 6, "condundef": 6},
    "C07": {"macro": 14, "call": 24, "condmacro": 3},
    "C08": {"local": 30, "branch": 10, "section": 6, "macro": 5, "call": 8},
    "C09": {"equ": 14, "label": 16, "set": 10, "condundef": 8, "export": 5},
    "C10": {"org": 14, "section": 16, "reserve": 14, "junction": 6},
    "C11": {"org": 12, "junction": 8, "data": 30},
    "C12": {"org": 14, "junction": 14, "section": 10, "data": 30},
    "C13": {"data": 60, "bin": 8, "call": 10},
    "C14": {"junction": 4, "org": 6},
    "C15": {"export": 14, "macro": 14, "equ": 10, "set": 8},
    "C16": {"include": 5, "macro": 7},
    "C17": {"include": 16, "section": 8, "dp": 6},
    "C18": {"dp": 6, "instr": 30},
    "C19": {"data": 20},
    "C20": {"instr": 40},
}
SOUPS = {p: 330 for p in TASTE}
HALF = {"C09", "C12", "C16", "C20"}         # with more errors


def soups(prop, g, work):
    fmts = ["B", "D", "C", "S", "H"]
    for i in range(int(SOUPS[prop] * work)):
        h = G(g.r.random(), isas(i))
        wrong = h.chance(0.55 if prop in HALF else 0.15)
        n = h.pick([5, 10, 20, 35])
        ls, files, bins = soup(g.r.random(), h.isa, n, TASTE[prop] if h.chance(0.7) else None, wrong)
        files = dict(files)
        id = "soup-%d" % i
        extra = ["-P", h.pick(["3", "4", "4", "6", "12"])]
        if h.chance(0.15):
            extra += ["--setdp", h.pick(["0", "1", "$12", "255"])]
        if h.chance(0.1):
            extra += ["-d", h.pick(["v1", "foo", "zz=3", "optional=$77", "nosuch", "nosuch2=0"])]
        if h.chance(0.15):
            extra += h.pick([["-q"], ["-v"]])
        if h.chance(0.2):
            extra += ["-e", h.pick(["foo", "$1234", "zz", "0", "nosuch"])]
        if prop in ("C11", "C12"):
            files["a.s"] = text(ls)
            yield Case(id, files, [run(h.isa, f, lst=False, extra=extra) for f in (fmts if prop == "C11" else h.r.sample(fmts, 2))], bins)
        elif prop == "C19":
            files["a.s"] = text(ls)
            runs = [run(h.isa, h.pick(fmts), h.chance(0.9), h.chance(0.5), h.chance(0.5), h.chance(0.5), extra + h.pick([[], ["-q"], ["-v"], ["-v", "-q"]])) for _ in range(4)]
            yield Case(id, files, runs + [runs[0]], bins)
        elif prop == "C17" and h.chance(0.6):
            # in several files
            k = sorted(h.r.sample(range(len(ls) + 1), min(len(ls), h.pick([1, 2]))))
            names = []
            for a, b in zip([0] + k, k + [len(ls)]):
                names.append("f%d.s" % len(names))
                files[names[-1]] = text(ls[a:b] + (h.pick([[], [], [" end"], [" END 5", " fcb 1"], [" end", " bogus"]])), last=h.chance(0.8)) or "\n"
            yield Case(id, files, [run(h.isa, h.pick("BSC"), extra=extra, files=names)], bins)
        else:
            yield one(id, text(ls, last=h.chance(0.9)), h.isa, extra, h.pick("SSSBDCH"), sym=prop not in ("C14",), exp=h.chance(0.7) or prop == "C15", files=files, bins=bins)


def smalls(prop, g, work):
    """Small programs, all of them or very many"""
    for i, (id, ls) in enumerate(small.programs(prop, g.r, int(MOST * work))):
        files = {"a.s": text(ls)}
        if any("include" in l for l in ls):
            files.update(small.FILES)
        if prop in ("C11", "C12", "C19"):
            fmts = ["B", "D", "C", "S", "H"] if prop == "C11" else [g.pick("BS")]
            runs = [run(6809, f, lst=False, extra=["-P", "4"]) for f in fmts]
            if prop == "C19":
                runs = [run(6809, g.pick("SH"), True, k & 1, k & 2, k & 4, g.pick([[], ["-q"], ["-v"]])) for k in (0, g.r.randrange(1, 8))]
            yield Case(id, files, runs)
        else:
            yield Case(id, files, [run(6809, "S", sym=prop in ("C01", "C09"), extra=["-P", "4" if prop == "C01" else "3"])])
    if prop in ("C05", "C16", "C20"):
        todo = list(small.operands(g.r, int(1500 * work)))
        for i, part in enumerate(chunks(todo, 40)):
            pre = [" lda %s" if prop == "C20" else " fdb %s"][0]
            yield one("operands-%d" % i, ["a equ 3", "1"] + [pre % t for t in part], isas(i), extra=["-P", "2"])


def scales(prop, g, work):
    """Much of the same thing"""
    for i, (id, ls, files) in enumerate(scale.programs(prop, g.r, int(SCALED * work), 300)):
        fs = dict(files)
        fs["a.s"] = text(ls)
        if prop in ("C11", "C12"):
            yield Case(id, fs, [run(6809, f, lst=False, extra=["-P", "3"]) for f in (["B", "D", "C", "S", "H"] if prop == "C11" else [g.pick("BSH")])])
        elif prop == "C19":
            runs = [run(6809, g.pick("SHC"), True, k & 1, k & 2, k & 4, g.pick([[], ["-q"], ["-v"]])) for k in (0, 7, g.r.randrange(1, 8))]
            yield Case(id, fs, runs + [runs[1]])
        elif prop == "C18":
            n = min(scale.size(g.r, 300), 200)
            extra = [x for k in range(n) for x in ("-d", "o%d=%d" % (k % (n + 1 - g.chance(0.1) * 2), k * 11))]
            pre = ["p%d equ o%d" % (k, k) for k in range(n)] + [" fdb o%d" % g.pick([0, n - 1, n // 2, n])]
            yield Case(id, {"a.s": text(pre)}, [run(isas(i), "S", sym=True, extra=extra)])
            fs = {"f%d.s" % k: " fcb %d\n" % k for k in range(min(n, 60))}
            names = list(fs) + ["f0.s"] * 3
            g.r.shuffle(names)
            yield Case(id + "-files", fs, [run(isas(i), "S", sym=True, files=names)])
        else:
            yield Case(id, fs, [run(isas(i), "S", sym=prop in ("C01", "C09", "C15"), exp=prop in ("C15", "C16"), extra=["-P", "12" if prop == "C01" else "5"])])


SCALED = 12
MOST = 600
AGAIN_USED = {"C15": 60, "C03": 60, "C05": 60, "C07": 110, "C09": 110, "C20": 60}


def with_soups(prop, f):
    def profile(g, work):
        yield from f(g, work)
        if prop in DIRECTIVES:
            yield from directives(g, work, DIRECTIVES[prop][0], "directive", DIRECTIVES[prop][1])
        if prop in AGAIN_USED:
            yield from uses(g, int(AGAIN_USED[prop] * work), "uses")
        yield from smalls(prop, g, work)
        yield from scales(prop, g, work)
        yield from soups(prop, g, work)
    return profile


PROFILES = {"C%02d" % k: with_soups("C%02d" % k, globals()["c%02d" % k]) for k in range(1, 21)}

# How much is done in the time of a quick check
WORK = {p: 2 for p in PROFILES}
# Accepted programs are also checked to be fixed points of the specification
AGAIN = {"C01", "C06", "C07", "C08", "C09", "C10"}
# Programs that are also given to an assembler built to stop at memory errors
MEMORY = {"C16"}
