"""Programs in which everything meets everything: few names, few addresses,
every directive in every context.

Names, sections and macros are few so that uses of them collide; arguments of
macros have the kind that their position is used for, and symbols used are
defined somewhere, so that most programs are free of errors.
"""

from gen import G, text

WEIGHTS = {
    "instr": 22, "data": 14, "reserve": 4, "blank": 3, "label": 4, "equ": 5, "set": 5, "dp": 4, "section": 5, "org": 4, "if": 9,
    "macro": 5, "call": 8, "include": 3, "export": 2, "local": 6, "noise": 2, "bin": 1, "condmacro": 1, "condundef": 1,
    "junction": 1, "end": 0, "branch": 4, "expr": 2,
}

BINARY = ["||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*"]

NUMBERS = ["0", "1", "5", "-1", "-12", "255", "256", "65535", "-128", "$1234", "$7fff", "'A", "@17", "0b101", "12345678901", "-32769", "0x10"]


class Soup:
    def __init__(self, g, n, weights=None):
        self.g = g
        w = dict(WEIGHTS)
        for k, v in (weights or {}).items():
            w[k] = v
        # no program has everything in it
        for k in list(w):
            if (weights is None or k not in weights) and g.chance(0.25):
                w[k] = w[k] * g.pick([0, 0, 3])
        self.kinds = [k for k in w if w[k] > 0] or ["instr"]
        self.weights = [w[k] for k in self.kinds]
        self.budget = n
        self.files = {}
        self.bins = {}
        pool = g.r.sample(["foo", "Foo", "zz", "q.1", "_w", "lab", "alpha9", "Aa", "BB", "x1", "n", "nop", "start"], g.pick([2, 3, 5, 8]))
        self.todo = list(pool)
        self.syms = list(pool)
        self.done = []
        self.ints = []
        self.sets = []
        self.macros = []          # (name, what)
        self.sections = g.r.sample(["one", "two", "CODE", "DATA", "Three", "bss"], g.pick([1, 2, 3]))
        self.locals = set()
        self.base = g.pick([0, 0x100, 0x1000, 0x7000])
        self.step = g.pick([0x200, 0x333, 0x400])
        self.depth = 0            # of conditionals
        self.inc = 0
        self.inmac = False
        self.mnum = 0
        self.enum = 0
        self.xnum = 0

    # --- pieces ---

    def sym(self):
        g = self.g
        if self.sets and g.chance(0.15):
            return g.pick(self.sets)
        return g.pick(self.syms)

    def value(self):
        g = self.g
        k = g.r.randrange(10)
        if k < 5:
            return self.sym()
        if k < 7:
            return g.near(self.sym())
        if k == 7:
            return "*"
        return g.const(1)

    def newlabel(self, out, p=0.25):
        """A label for a line at which it can be defined"""
        g = self.g
        if self.inmac:
            if g.chance(0.1):
                return g.pick(["0", "1"])
            return ""
        if self.todo and self.depth == 0 and g.chance(p):
            s = self.todo.pop(0)
            self.done.append(s)
            return s
        if g.chance(0.12):
            n = g.pick(["0", "1", "2", "!", "01"])
            self.locals.add({"!": "0", "01": "1"}.get(n, n))
            return n
        return ""

    def condition(self):
        g = self.g
        k = g.r.randrange(13)
        if self.inmac and k < 4:
            return g.pick(["\\1", "\\1 > 3", "\\1 - 5", "!\\1", "&{1} == \\2"])
        if k < 4:
            return g.pick(["0", "1", "0", "1", "-1", "256", "$100000000", ".5", "0.0", "5 - 5"])
        if k < 6:
            return g.pick(["nosuch", "!nosuch", "nosuch1 == 0", "not_here | 0"])
        if k < 8 and self.sets:
            return "%s %s %d" % (g.pick(self.sets), g.pick(["&", "==", "<", ">=", "%"]), g.r.randrange(1, 4))
        if k < 10 and self.done:
            return "%s %s %s" % (g.pick(self.done), g.pick(["<", ">", "==", "!=", "&", ">="]), g.num(g.value()))
        if k < 11:
            return "%s > %s" % (g.pick(self.syms), g.pick(self.syms))
        if k < 12:
            return "* %s $%x" % (g.pick(["<", ">", "=="]), self.base)
        return g.const(2)

    # --- statements: lists of lines ---

    def statements(self, n):
        out = []
        for _ in range(n):
            k = self.g.r.choices(self.kinds, self.weights)[0]
            self.budget -= 1
            out += getattr(self, "s_" + k)() or []
        return out

    def s_instr(self):
        g = self.g
        lab = self.newlabel(None)
        if self.inmac and g.chance(0.6):
            return [g.line(lab, *g.pick([("lda", "#\\1 & 255"), ("ldx", "#\\2"), ("ldd", "\\1,\\3"), ("ldu", "[\\2,\\3]"), ("ld\\4", "#5"), ("ld\\4", "\\2"),
                                         ("leax", "\\4,\\3"), ("lda", ",\\3+"), ("stx", "\\2"), ("jsr", "\\2,pcr"), ("lbra", "\\2"), ("tfr", "\\3,d"), ("pshs", "\\4,cc"),
                                         ("add\\4", ",\\3"), ("lda", "<\\2"), ("ldb", ">\\1,\\3"), ("cmpx", "#\\{1}")]))]
        return [g.instruction(lab, self.syms + self.sets, [])]

    def s_data(self):
        g = self.g
        lab = self.newlabel(None)
        if self.inmac and g.chance(0.7):
            return [g.line(lab, *g.pick([("fcb", "\\1 & 255,\\2"), ("fdb", "\\1,\\2"), ("fdb", "\\1 + \\2 * 2"), ("fcc", "\"n=\\1;\""), ("fcc", "/\\{1}|&2/"), ("fcc", "\"&{1}\\2\\3\\4\""),
                                         ("fqb", "\\1"), ("fcc", "\\5"), ("fcs", "\\5,\"\\4\""), ("fcn", "\"<\\5>\"" if False else "\"<\\4>\""), ("fcv", "\"\\3\\1\""), ("fci", "\\1,\\1"),
                                         ("rzb", "3,\\1"), ("fill", "\\1,2"), ("rmb", "\\1 & 3"), ("align", "4,\\1"), ("fdb", "w\\4_"), ("fdb", "\\1,-\\1,~\\{1}")]))]
        if g.chance(0.2):
            return [g.line(lab, "fdb", [self.value() for _ in range(g.pick([1, 2, 3]))])]
        return [g.data(lab, self.syms + self.sets)]

    def s_reserve(self):
        g = self.g
        return [g.line(self.newlabel(None, 0.5), g.pick(["rmb", "rzb", "align"]), g.pick(["1", "2", "7", "16", "100"]))]

    def s_blank(self):
        return [self.g.pick(["", "* star", "; semi", "   ", "\t; x", "*5", ";;"])]

    def s_label(self):
        g = self.g
        lab = self.newlabel(None, 0.8)
        return [lab + g.comment()] if lab else [g.line("", "nop")]

    def s_equ(self):
        g = self.g
        if self.inmac or self.depth or not self.todo:
            return self.s_data()
        s = self.todo.pop(0)
        self.done.append(s)
        e = g.pick([g.num(g.value()), g.const(2), "*", "*+5", "* - %d" % g.r.randrange(9), g.pick(self.syms), g.near(g.pick(self.syms))])
        if e.startswith(s) and not e[len(s):len(s) + 1].isalnum():
            e = "7"
        return [g.line(s, "equ", e)]

    def s_set(self):
        g = self.g
        if self.inmac:
            return [g.pick(["w\\4_ set \\1", "w\\4_ set w\\4_ + 1" if False else "w\\4_ set \\2", "vm\t set \\1"])]
        if not self.sets:
            return []
        s = g.pick(self.sets)
        out = [g.line(s, "set", g.pick(["%s + 1" % s, "%s * 2 + 1" % s, g.const(1), "*", "%s ^ %d" % (s, g.r.randrange(256)), "%s + %s" % (s, g.pick(self.sets))]))]
        if g.chance(0.5):
            out.append(g.line("", g.pick(["fdb", "ldx"]), s if False else ("%s" % s)))
        return out

    def s_dp(self):
        g = self.g
        return [g.line(self.newlabel(None), "setdp", g.pick(["0", "1", "-1", "$12", "$ff", "%d" % (self.base >> 8), "%d" % ((self.base >> 8) + 1), "256", "-2", "$101"]))]

    def s_section(self):
        g = self.g
        s = g.pick(self.sections)
        self.locals = set()
        lab = self.newlabel(None)
        if s in ("CODE", "DATA") and g.chance(0.4):
            return [g.line(lab, s)]
        return [g.line(lab, "section", g.pick(["\"%s\"", "/%s/", "\"%s\""]) % s)]

    def place(self):
        self.base = (self.base + self.step) & 0x7fff
        return self.base

    def s_org(self):
        g = self.g
        k = g.r.randrange(10)
        if k < 7:
            a = g.num(self.place())
        else:
            a = g.pick(["*", "*+5", "*+$80", g.pick(self.syms) if g.chance(0.2) else "*+1"])
        return [g.line(self.newlabel(None), g.pick(["org", "put", "org"]), a)]

    def s_junction(self):
        """Data put next to other data, from elsewhere"""
        g = self.g
        if self.inmac or self.depth:
            return self.s_org()
        self.enum += 1
        e = "e_%d" % self.enum
        out = [g.line("", "org", g.num(self.place()))] + [g.data("", self.syms)] + ["%s equ *" % e]
        k = g.r.randrange(5)
        if k == 0:
            out += [g.line("", "org", g.num(self.place())), " put %s" % e]
        elif k == 1:
            out += [" put %s" % g.num(self.place()), " fcb 7", " put %s" % e]
        elif k == 2:
            out += [" section \"%s\"" % g.pick(self.sections), " put %s" % e]
        elif k == 3:
            out += [" org %s+1" % e, " put %s" % e]
        else:
            out += [" org %s" % e, " rmb %d" % g.r.randrange(3)]
        return out + [" fdb *,%s" % e] + [g.line("", "org", g.num(self.place()))]

    def s_if(self):
        g = self.g
        if self.depth > 4 or self.budget < 0:
            return self.s_instr()
        out = [g.line("", "if", self.condition())]
        self.depth += 1
        out += self.statements(g.r.randrange(0, 4))
        for _ in range(g.pick([0, 0, 1, 1, 2, 3])):
            out.append(g.line("", "elsif", self.condition()))
            out += self.statements(g.r.randrange(0, 3))
        if g.chance(0.5):
            out.append(g.line("", "else"))
            out += self.statements(g.r.randrange(0, 3))
        self.depth -= 1
        return out + [g.line("", "endif")]

    def definition(self, nm, n=None):
        """A macro's lines"""
        g = self.g
        was, self.inmac = self.inmac, True
        d, self.depth = self.depth, 0
        body = self.statements(g.r.randrange(0, 5) if n is None else n)
        self.depth = d
        self.inmac = was
        if g.chance(0.2):
            body.insert(0, g.pick(["1 nop", "1"]))
            body.append(g.pick([" bra 1B", " fdb 1B", " leax 1B,pcr"]))
        return [g.line(nm, "macro")] + body + [g.line("", "endm", g.pick([None, None, None, "\"%s\"" % nm]))]

    def s_macro(self):
        g = self.g
        if self.budget < 0 or len(self.macros) > 4 or self.depth > 1:
            return self.s_call()
        self.mnum += 1
        nm = g.pick(["mac", "Mac", "m.", "_m", "zed"]) + str(self.mnum)
        if self.inmac:
            # defined each time the other one is used
            return self.definition(nm, g.r.randrange(0, 3)) + ([" %s %s" % (nm, self.args())] if g.chance(0.5) else [])
        if self.depth:
            return self.definition(nm)
        out = self.definition(nm)
        self.macros.append(nm)
        if g.chance(0.5):
            out += self.s_call()
        return out

    def args(self):
        g = self.g
        if self.inmac and g.chance(0.8):
            a = [g.pick(["\\1", "\\1 + 1", "\\2", "7", "-\\1"]), g.pick(["\\2", "\\1", self.sym()]), g.pick(["\\3", "\\3", "y"]), g.pick(["\\4", "b"]), g.pick(["\\5", "\"\\4x\"", "/in/"])]
        else:
            a = [g.pick(NUMBERS), g.pick([self.sym(), self.sym(), g.num(g.r.randrange(300)), "-%d" % g.r.randrange(1, 40)]), g.pick(["x", "y", "u", "s", "X"]), g.pick(["a", "b", "A"]),
                 g.pick(["\"str\"", "/s t/", "\"\"" if False else "\"q\"", "\"a,b\"", "\"7\""])]
        return g.pick([",", ",", ", "]).join(a)

    def s_call(self):
        g = self.g
        if not self.macros:
            return self.s_instr()
        if self.inmac and g.chance(0.7):
            return self.s_data()
        lab = self.newlabel(None)
        return ["%s\t%s %s" % (lab, g.pick(self.macros), self.args())]

    def s_condmacro(self):
        """The same macro in several arms"""
        g = self.g
        if self.inmac or self.depth > 1:
            return self.s_instr()
        self.mnum += 1
        nm = "cm%d" % self.mnum
        out = [g.line("", "if", self.condition())] + self.definition(nm)
        for _ in range(g.r.randrange(0, 2)):
            out += [g.line("", "elsif", self.condition())] + self.definition(nm)
        out += [g.line("", "else")] + self.definition(nm) + [g.line("", "endif")]
        if g.chance(0.8) and self.depth == 0:
            self.macros.append(nm)
        return out

    def s_condundef(self):
        """Names nobody defines, where that does not matter"""
        g = self.g
        u = g.pick(["nosuch", "nosuch2", "Nosuch"])
        return [g.line("", "if", g.pick(["0", "0", "nosuch", "nosuch2"])), g.pick([" fdb %s", " lda %s", " bra %s", " rmb %s", " org %s", "hidden equ %s", " end %s"]) % u, g.line("", "endif")]

    def s_include(self):
        g = self.g
        if self.inc > 2 or self.budget < 0 or len(self.files) > 5:
            return self.s_instr()
        nm = "i%d.s" % len(self.files)
        self.files[nm] = ""
        if self.files and g.chance(0.25) and not self.inmac:
            nm2 = g.pick(list(self.files))
            if self.files[nm2] and self.files[nm2].count("\n") < 6 and not any(s in self.files[nm2] for s in self.syms):
                del self.files[nm]
                return [g.line("", "include", "\"%s\"" % nm2)]
        # what is in the file can be assembled more than once only if it defines nothing
        self.inc += 1
        keep = self.todo
        if self.inmac or self.depth:
            self.todo = []
        was, self.inmac = self.inmac, False
        d, self.depth = self.depth, 0
        body = self.statements(g.r.randrange(0, 5))
        self.inmac = was
        self.depth = d
        if self.inmac or self.depth:
            self.todo = keep
        self.inc -= 1
        if g.chance(0.15):
            body += self.ending() + [g.pick([" fcb 66", " bogus", " if 1", "m9 macro", "foo equ 1"])]
        self.files[nm] = text(body, last=g.chance(0.85), eol=g.pick(["\n"] * 9 + ["\r\n"]) if False else "\n")
        return [g.line(self.newlabel(None), "include", g.pick(["\"%s\"", "/%s/"]) % nm)]

    def ending(self):
        g = self.g
        return [g.line(self.newlabel(None), "end", g.pick([None, None, self.sym(), "$1234", "0", "*"]))]

    def s_end(self):
        g = self.g
        if self.depth or self.inmac:
            return self.s_instr()
        return []

    def s_branch(self):
        """Operands relative to the program counter"""
        g = self.g
        n = g.pick(["0", "1", "2"])
        k = g.r.randrange(6)
        if self.inmac:
            t = g.pick(["\\2", "1B", "*+3", "\\2 + 1"])
            return (["1"] if t == "1B" else []) + [g.line("", g.pick(["lbra", "lbsr", "lbeq"]), t)]
        if k < 2:
            t = self.sym() if k else g.near(self.sym())
        elif k == 2 and self.locals:
            t = g.pick(sorted(self.locals)) + "B"
        elif k == 3:
            t = "*%s%d" % (g.pick("+-"), g.r.randrange(0, 126))
        else:
            d = g.pick([0, 1, 2, 30, 60, 120, 122, 123, 124, 125, 126, 127])
            op = g.pick(["bra", "bne", "bsr", "lbra", "leax", "lda", "ldy"])
            x = "%s%s" % (n, "F")
            if g.chance(0.5):
                return [g.line("", op, x + (",pcr" if op in ("leax", "lda", "ldy") else "")), " rmb %d" % d, n + " nop"]
            self.locals.add(n)
            return [n + " nop", " rmb %d" % d, g.line("", op, n + "B" + (",pcr" if op in ("leax", "lda", "ldy") else ""))]
        op = g.pick(["lbra", "lbsr", "lbhi", "leax", "lda", "ldu", "jsr", "cmpy"])
        if op[0] != "l" or op[1] != "b":
            t = g.pick(["%s,pcr", "%s,PCR", "[%s,pcr]", ">%s,pcr"]) % t
        return [g.line(self.newlabel(None), op, t)]

    def s_expr(self):
        """Values of expressions"""
        g = self.g

        def leaf():
            if self.inmac and g.chance(0.5):
                return g.pick(["\\1", "\\2", "&{1}"])
            return self.value() if g.chance(0.6) else g.num(g.r.randrange(20))

        def ex(d):
            if d == 0:
                return leaf()
            k = g.r.randrange(8)
            if k == 0:
                return g.pick(["-", "~", "!", "+"]) + "(%s)" % ex(d - 1)
            if k == 1:
                return "%s ? %s : %s" % (ex(d - 1), ex(d - 1), ex(d - 1))
            if k == 2:
                return "(%s) %s %d" % (ex(d - 1), g.pick(["<<", ">>", "/", "% "]), g.r.randrange(1, 9))
            if k == 3:
                return "(%s)" % ex(d - 1)
            return "%s %s %s" % (ex(d - 1), g.pick(BINARY), ex(d - 1))
        e = ex(g.pick([1, 2, 2, 3]))
        if e.startswith("*"):
            e = "(%s)" % e
        return [g.line(self.newlabel(None), "fqb", [e] + ([ex(1).replace("*", "0 + *", 1)] if g.chance(0.3) else []))]

    def s_bin(self):
        g = self.g
        nm = "b%d.bin" % g.r.randrange(2)
        if nm not in self.bins:
            self.bins[nm] = bytes(g.r.randrange(256) for _ in range(g.pick([0, 1, 5, 33, 70])))
        return [g.line(self.newlabel(None), "includebin", "\"%s\"" % nm)]

    def s_export(self):
        g = self.g
        if self.inmac and g.chance(0.5):
            return [" export \\2"] if False else []
        return [g.line("", "export", g.pick(self.syms + self.macros))]

    def s_local(self):
        g = self.g
        n = g.pick(["0", "1", "2"])
        out = []
        k = g.r.randrange(4)
        if k == 0 or (n not in self.locals and k < 3):
            self.locals.add(n)
            return ["%s%s" % (n, g.pick(["", " nop", " fcb 1", " fdb *", " equ *", " ldy #3"]))]
        if k < 3:
            return [g.line("", g.pick(["fdb", "lbra", "ldx", "leax"]), "%sB" % n if k else "%sb" % n) if k else ""] if n in self.locals else []
        # forwards, with something in between
        out = [g.line(g.pick(["", n]), g.pick(["fdb", "lbne", "ldx"]), "%s%s" % (n, g.pick("Ff")))]
        if g.chance(0.5) and self.budget > 0:
            out += self.statements(g.r.randrange(0, 2))
        return out + ["%s nop" % n]

    def s_noise(self):
        g = self.g
        return [g.line(self.newlabel(None), g.pick(["nop", "page", "opt", "spc 2", "ttl x", "nam foo", "opt \"q\""]))]

    # --- whole ---

    def build(self):
        g = self.g
        out = []
        if "set" in self.kinds:
            self.sets = g.r.sample(["v1", "v2", "V1"], g.pick([1, 2]))
            out += [g.line(s, "set", g.num(g.r.randrange(9))) for s in self.sets]
        if g.chance(0.6):
            out += [g.line("", "org", g.num(self.place()))]
        while self.budget > 0:
            out += self.statements(1)
        for s in self.todo:
            out.append(g.pick(["%s equ %s" % (s, g.num(g.value())), s, "%s nop" % s, "%s rmb 1" % s, "%s equ *+1" % s]))
            self.done.append(s)
        self.todo = []
        if g.chance(0.25):
            out += ["%s nop" % n for n in ("0", "1", "2")]
        if g.chance(0.3):
            out += self.ending()
            if g.chance(0.5):
                out += [g.pick([" fcb 66", " bogus", " if 1", " endif", "m9 macro", "%s equ 1" % self.syms[0], " include \"none\""])]
        return out


WRONG = [" bogus", " lda", " lda #", " lda [", " lda 1,2,3", " fdb nosuch", " bra *+500", " fcb x", " rzb -1", " lda #5)", " fcb \"abc", " include \"missing.s\"", " endm", " endif", " else",
         " elsif 1", " if", "m macro", " if 1", " if 0", " tfr a,[x]", " pshs 5", " ldx ,x+5", " org", " put", " section", "q equ", " align 0", " rmb -1", " fill 1", " end x", " setdp x", " fcb 1/0",
         " fdb 9F", " fdb 9B", " fcb \\1", " jmp #5", " leax 5", " sta #1", " export nosuch", " org $7fff", " put 0", " org 0", " end", " End $55", " foo nop", " lda 5,pc", " lda ,-x+", " pshs s", " tfr a,x",
         " lbra *+5", "foo equ 3", "foo nop", "zz set 1", "zz equ 1", " mac1 1", " setdp 1", " section \"one\"", "1", " fdb 1F", " fdb 1B", " fdb q.1", " org foo", " rmb foo - zz"]


def worsen(h, ls, files):
    """Changes a line or two, for the worse"""
    ls = list(ls)
    for _ in range(h.pick([1, 1, 1, 2])):
        target = ls
        fn = None
        if files and h.chance(0.25):
            fn = h.pick(sorted(files))
            target = files[fn].split("\n")[:-1]
        k = h.r.randrange(8)
        i = h.r.randrange(len(target) + 1)
        j = min(i, len(target) - 1)
        if k < 4 or not target:
            target.insert(i, h.pick(WRONG))
        elif k == 4:
            del target[j]
        elif k == 5:
            target.insert(h.r.randrange(len(target) + 1), target[j])
        elif k == 6:
            q = h.r.randrange(len(target))
            target[j], target[q] = target[q], target[j]
        else:
            s = target[j]
            p = h.r.randrange(len(s) + 1)
            target[j] = s[:p] + h.pick(["(", ")", ",", "#", "<", "-", "x", "1", " ", "[", "\"", "+", "\\", "*", "B", ";"]) + s[p + h.r.randrange(2):]
        if fn:
            files[fn] = text(target)
    return ls


def soup(seed, isa, n, weights=None, wrong=False):
    """(lines, files, bins)"""
    h = G(seed, isa)
    s = Soup(h, n, weights)
    ls = s.build()
    if wrong:
        ls = worsen(h, ls, s.files)
    return ls, s.files, s.bins
