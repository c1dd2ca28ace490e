"""Whole random programs."""

from gen import G, text


class Program:
    """Builds the lines of a program that is mostly free of errors.

    feats: names of the features to use, of
       "if" "macro" "local" "section" "org" "set" "equ" "dp" "include" "end" "export"
    """

    def __init__(self, g, n, feats, files=None):
        self.g = g
        self.feats = set(feats)
        self.files = files if files is not None else {}
        self.syms = [g.name() for _ in range(max(3, n // 5))]
        self.todo = list(self.syms)
        self.done = []
        self.macros = []
        self.locals = {}
        self.since = 10000
        self.lines = []
        self.budget = n
        self.depth = 0
        self.insec = "CODE"
        self.sections = ["CODE"]
        self.sets = []
        self.org = 0x400 * g.r.randrange(0, 16)
        self.exports = []

    def add(self, *ls):
        self.lines.extend(ls)

    def label(self, p=0.25):
        """Label for a line: one of the symbols, a local one or none."""
        g = self.g
        if self.depth == 0 and self.todo and g.chance(p):
            s = self.todo.pop(0)
            self.done.append(s)
            self.since = 0
            return s
        if "local" in self.feats and g.chance(0.12):
            n = g.pick(["0", "1", "2", "!", "07", "$3", "10"])
            return n
        return ""

    def block(self, n):
        for _ in range(n):
            self.statement()

    def statement(self):
        g = self.g
        f = self.feats
        self.budget -= 1
        self.since += 3
        k = g.r.randrange(100)
        near = [self.done[-1]] if self.done and self.since < 90 else []
        if k < 42:
            self.add(g.instruction(self.label(), self.syms, near))
        elif k < 62:
            self.since += 200
            self.add(g.data(self.label(), self.syms))
        elif k < 66:
            self.add(g.pick(["", "", "* star", "; semi", "   ", "\t; x", " * 5"]))
        elif k < 69:
            self.add(self.label(0.6))
        elif k < 73 and "equ" in f and self.depth == 0 and self.todo:
            s = self.todo.pop(0)
            self.done.append(s)
            self.since = 10000
            e = g.pick(self.syms) if g.chance(0.3) else g.const(2)
            if e == s:
                e = "7"
            self.add(g.line(s, "equ", e if g.chance(0.5) else "%s + %s" % (e, g.num(g.r.randrange(300)))))
        elif k < 76 and "set" in f:
            if not self.sets or g.chance(0.2):
                s = g.name()
                self.sets.append(s)
                self.add(g.line(s, "set", g.const(1)))
            else:
                s = g.pick(self.sets)
                self.add(g.line(s, "set", "%s + %s" % (s, g.num(g.r.randrange(9)))))
                self.add(g.line("", "fdb", s))
        elif k < 78 and "dp" in f:
            self.add(g.line("", "setdp", g.num(g.pick([0, 1, 4, 0x10, 0xff, -1]))))
        elif k < 82 and "section" in f and self.depth == 0:
            self.since = 10000
            s = g.pick(self.sections + ["one", "two", "Three", "DATA"])
            if s not in self.sections:
                self.sections.append(s)
            self.insec = s
            if s == "DATA" and g.chance(0.5):
                self.add(g.line(self.label(), "data"))
            else:
                self.add(g.line(self.label(), "section", "\"%s\"" % s))
        elif k < 84 and "org" in f and self.depth == 0:
            self.since = 10000
            self.org += g.pick([0x400, 0x380, 0x500])
            if g.chance(0.6):
                self.add(g.line(self.label(), "org", g.num(self.org & 0x7fff)))
            else:
                self.add(g.line(self.label(), "put", g.num(self.org & 0x7fff)))
        elif k < 89 and "if" in f and self.depth < 5 and self.budget > 0:
            self.conditional()
        elif k < 92 and "macro" in f and self.depth == 0:
            self.macro()
        elif k < 97 and self.macros:
            self.call()
        elif k < 98 and "include" in f and self.depth == 0 and self.budget > 4:
            self.include()
        elif k < 99 and "export" in f and self.depth == 0:
            x = g.pick(self.syms + self.macros)
            self.exports.append(x)
            self.add(g.line("", "export", x))
        else:
            self.add(g.line(self.label(), g.pick(["nop", "rts", "page", "opt", "spc 2", "ttl x", "nam foo"])))

    def condition(self):
        g = self.g
        k = g.r.randrange(8)
        if k < 3:
            return g.num(g.pick([0, 1, 0, 5, -1]))
        if k < 5:
            return g.const(2)
        if k < 6 and self.done:
            return "%s %s %s" % (g.pick(self.done), g.pick(["<", ">", "==", "!=", "&"]), g.num(g.value()))
        if k < 7:
            return "undefined_%d" % g.r.randrange(3)
        if self.sets:
            return "%s %% 2" % g.pick(self.sets)
        return "1.5 > 1"

    def conditional(self):
        g = self.g
        self.depth += 1
        self.add(g.line("", "if", self.condition()))
        self.block(g.r.randrange(0, 4))
        for _ in range(g.pick([0, 0, 1, 1, 2, 3])):
            self.add(g.line("", "elsif", self.condition()))
            self.block(g.r.randrange(0, 3))
        if g.chance(0.5):
            self.add(g.line("", "else"))
            self.block(g.r.randrange(0, 3))
        self.add(g.line("", "endif"))
        self.depth -= 1

    def pos(self, n):
        g = self.g
        return g.pick(["\\%d", "\\{%d}", "&{%d}"]) % n if n < 10 else g.pick(["\\{%d}", "&{%d}"]) % n

    def macro(self):
        g = self.g
        nm = g.name()
        body = []
        for _ in range(g.r.randrange(1, 5)):
            k = g.r.randrange(8)
            p = self.pos(g.r.randrange(1, 4))
            if k < 3:
                body.append(g.line("", g.pick(["lda", "ldx", "sta", "jmp", "clr"]), p))
            elif k == 3:
                body.append(g.line("", "ldb", "#" + p))
            elif k == 4:
                body.append(g.line("", "fcb", "%s + 1, %s * 2" % (p, p)))
            elif k == 5:
                body.append(g.line("", "fcc", "\"v=%s.\"" % g.pick(["\\1", "&2", "&{1}"])))
            elif k == 6 and self.macros:
                body.append(g.line("", g.pick(self.macros), [p, g.num(3), self.pos(2)]))
            else:
                body.append(g.line("", "nop"))
        if len(self.macros) > 4:
            return
        self.add(g.line(nm, "macro"))
        self.add(*body)
        self.add(g.line("", "endm"))
        self.macros.append(nm)

    def call(self):
        g = self.g
        self.since += 60
        args = [g.pick([g.num(g.pick([1, 5, 77, 255])), g.num(g.r.randrange(1000))] +
                       ([g.pick(self.done)] if self.done else [])) for _ in range(3)]
        # not the letters: a register cannot be used in an expression
        self.add(g.line(self.label(), g.pick(self.macros), args).replace(self.macros[0].upper(), self.macros[0]))

    def include(self):
        g = self.g
        nm = "inc%d.s" % len(self.files)
        self.files[nm] = ""
        keep, self.lines = self.lines, []
        feats = self.feats
        self.feats = feats - {"section", "macro"}
        self.block(g.r.randrange(1, 5))
        self.feats = feats
        self.files[nm] = text(self.lines)
        self.lines = keep
        self.add(g.line(self.label(), "include", "\"%s\"" % nm))

    def finish(self):
        g = self.g
        for s in self.todo:
            self.add(g.line(s, "equ", g.const(1)) if g.chance(0.5) else s)
        self.todo = []
        if "end" in self.feats and g.chance(0.7):
            self.add(g.line("", "end", g.pick([[], g.pick(self.syms), g.num(g.pick([0, 0x1234, 0xffff]))])))
        return self.lines


def program(seed, isa, n, feats):
    """(lines, files, Program)"""
    g = G(seed, isa)
    p = Program(g, n, feats)
    if "org" in feats and g.chance(0.7):
        p.add(g.line("", "org", g.num(p.org)))
    while p.budget > 0:
        p.statement()
    p.finish()
    return p.lines, p.files, p
