"""Pieces from which programs are generated."""

import json
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
ISA = {6809: {}, 6309: {}}
for _e in json.load(open(os.path.join(HERE, "isa.json"))):
    ISA[_e["isa"]][_e["op"]] = _e

REGS = {6809: ["cc", "a", "b", "dp", "x", "y", "u", "s", "pc", "d", "pcr"],
        6309: ["cc", "a", "b", "dp", "x", "y", "u", "s", "pc", "d", "pcr", "e", "f", "w", "q", "v"]}
EDGE = [0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 63, 64, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257,
        511, 512, 0x7fe, 0x7fff, 0x8000, 0x8001, 0xfefe, 0xff00, 0xff7f, 0xff80, 0xffef, 0xfff0, 0xfffe, 0xffff]
SIGNED = EDGE + [-x for x in EDGE[1:]]


class G:
    """A random source of text in the assembler's language."""

    def __init__(self, seed, isa=6809):
        self.r = random.Random(seed)
        self.isa = isa
        self.n = 0

    # --- text ---

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def ws(self):
        return self.pick([" ", "\t", "\t", "  ", " \t", "        "])

    def anycase(self, s):
        k = self.r.random()
        if k < 0.6:
            return s
        if k < 0.8:
            return s.upper()
        return "".join(self.pick([c.lower(), c.upper()]) for c in s)

    def comment(self):
        return self.pick(["", "", "", "", " ; remark", "\t; x,y \"quoted\" 5", " ;", "  ;;; 'a'", " ; \xe9\x80"])

    def line(self, label="", op="", args=None):
        """args: None, text or list of texts"""
        s = label
        if op:
            s += self.ws() + self.anycase(op)
            if args is not None and args != [] and args != "":
                a = args if isinstance(args, str) else self.pick([",", ",", ", ", " , "]).join(args)
                s += self.ws() + a
        return s + self.comment()

    def name(self):
        self.n += 1
        k = self.r.random()
        if k < 0.5:
            return "%s%d" % (self.pick(["l", "L", "lab", "Lab", "loop_", "v.", "_z", "data", "Xx"]), self.n)
        base = self.pick(["alpha", "Alpha", "start", "end_of", "tab.le", "q_", "zz", "rts", "pcx", "xy", "ab", "d0", "n"])
        return "%s_%d" % (base, self.n)

    # --- numbers ---

    def num(self, v):
        """Literal of an integer; negative ones get a sign."""
        if v < 0:
            return "-" + self.num(-v)
        k = self.r.randrange(10)
        if k < 4:
            return "%d" % v
        if k < 6:
            return self.pick(["$%x", "$%X", "$%04x", "0x%x", "0x%X"]) % v
        if k == 6:
            return "@%o" % v
        if k == 7 and v < 1 << 20:
            return "0b" + bin(v)[2:]
        if k == 8 and v < 1 << 20:
            return "(%" + bin(v)[2:] + ")"
        if k == 9 and 33 <= v < 127 and v not in (39, 59):
            return "'" + chr(v) + self.pick(["", "'"])
        if v >= 8 and k == 9:
            return "0%o" % v
        return "%d" % v

    def value(self):
        k = self.r.randrange(10)
        if k < 5:
            return self.pick(EDGE)
        if k < 8:
            return self.r.randrange(65536)
        if k < 9:
            return self.r.randrange(256)
        return -self.pick(EDGE)

    def const(self, depth=2):
        """A constant integer expression; mostly simple."""
        if depth <= 0 or self.chance(0.55):
            return self.num(self.value())
        k = self.r.randrange(8)
        if k < 6:
            op = self.pick(["+", "-", "*", "&", "|", "^", "<<", ">>", "<", "==", "%"])
            if op in ("<<", ">>"):
                return "(%s %s %s)" % (self.const(depth - 1), op, self.num(self.r.randrange(0, 16)))
            if op == "%":
                return "(%s %% %s)" % (self.const(depth - 1), self.num(self.r.randrange(1, 300)))
            return "(%s %s %s)" % (self.const(depth - 1), op, self.const(depth - 1))
        if k == 6:
            return "%s(%s)" % (self.pick(["-", "~", "!", "+"]), self.const(depth - 1))
        return "(%s ? %s : %s)" % (self.const(depth - 1), self.const(depth - 1), self.const(depth - 1))

    def near(self, sym):
        """An expression near a symbol's value."""
        k = self.r.randrange(6)
        if k < 3:
            return sym
        d = self.pick([1, 2, 3, 15, 16, 127, 128, 200, 256])
        return "%s%s%s" % (sym, self.pick(["+", "-", " + ", " - "]), self.num(d))

    # --- operands ---

    def address(self, syms=()):
        """Text of a direct or extended operand."""
        pre = self.pick(["", "", "", "", ">", "<"])
        if syms and self.chance(0.6):
            return pre + self.near(self.pick(list(syms)))
        return pre + self.const(1)

    def idxreg(self):
        return self.anycase(self.pick(["x", "y", "u", "s"]))

    def indexed(self, syms=(), pcr=True):
        """Text of an indexed operand the instruction set has."""
        r = self.idxreg()
        k = self.r.randrange(14)
        six = self.isa == 6309
        ind = self.chance(0.3)
        if k < 2:
            t = "," + r
        elif k < 6:
            pre = self.pick(["", "", "", "<<", "<", ">"])
            if ind and pre == "<<":
                pre = ""
            off = self.near(self.pick(list(syms))) if syms and self.chance(0.2) else self.num(self.pick(SIGNED))
            t = pre + off + self.pick([",", ", "]) + r
        elif k < 8:
            t = self.anycase(self.pick(["a", "b", "d"] + (["e", "f", "w"] if six else []))) + "," + r
        elif k < 10:
            if ind:
                t = self.pick([",%s++", ",--%s"]) % r
            else:
                t = self.pick([",%s+", ",%s++", ",-%s", ",--%s"]) % r
        elif k < 12 and pcr:
            pre = self.pick(["", "", "", "<", ">"])
            p = self.anycase(self.pick(["pcr", "pcr", "pc"]))
            if syms and self.chance(0.6) and p.lower() == "pcr":
                # forced short displacements are as wide as told
                t = self.pick(["", "", ">"]) + self.near(self.pick(list(syms))) + "," + p
            elif p.lower() == "pcr":
                t = "*%s%s,%s" % (self.pick(["+", "-"]), self.num(self.r.randrange(0, 200)), p)
            else:
                t = pre + self.num(self.pick(SIGNED)) + "," + p
        elif k == 12 and six:
            t = self.pick([",w", ",w++", ",--w", "%s,w" % self.num(self.pick(SIGNED))])
        else:
            if syms and self.chance(0.5):
                t = self.near(self.pick(list(syms)))
            else:
                t = self.const(1)
            return "[" + t + "]"
        return "[" + t + "]" if ind else t

    def memory(self, e, syms=(), pcr=True):
        """Text of an operand for a memory instruction."""
        if e["dir"] < 0 and e["ext"] < 0:
            return self.indexed(syms, pcr)
        return self.address(syms) if self.chance(0.5) else self.indexed(syms, pcr)

    def pairreg(self, size):
        eight = ["a", "b", "cc", "dp"] + (["e", "f"] if self.isa == 6309 else [])
        sixteen = ["d", "x", "y", "u", "s", "pc"] + (["w", "v"] if self.isa == 6309 else [])
        return self.anycase(self.pick(eight if size == 8 else sixteen))

    def operands(self, op, syms=(), near=(), pcr=True):
        """Text of operands the instruction has.  near: symbols for short branches."""
        e = ISA[self.isa][op]
        k = e["k"]
        if k == "inh":
            return ""
        if k in ("imm8", "imm16", "imm32"):
            if e["idx"] < 0 or self.chance(0.4):
                if syms and self.chance(0.4):
                    return "#" + self.near(self.pick(list(syms)))
                return "#" + self.const(1)
            return self.memory(e, syms, pcr)
        if k == "mem":
            return self.memory(e, syms, pcr)
        if k == "rel8":
            if near and self.chance(0.7):
                return self.pick(list(near))
            return "*%s%d" % (self.pick(["+", "-"]), self.r.randrange(0, 120))
        if k == "rel16":
            if syms and self.chance(0.7):
                return self.pick(["", "", ">"]) + self.near(self.pick(list(syms)))
            return "*%s%d" % (self.pick(["+", "-"]), self.r.randrange(0, 5000))
        if k in ("stks", "stku"):
            other = "u" if k == "stks" else "s"
            rs = [r for r in ["cc", "a", "b", "d", "dp", "x", "y", other, "pc"] if self.chance(0.45)]
            self.r.shuffle(rs)
            return [self.anycase(r) for r in rs] or "pc"
        if k == "pair":
            s = self.pick([8, 16])
            if self.isa == 6309 and self.chance(0.1):
                return self.pick(["0", "0"]) + "," + self.pairreg(s)
            return [self.pairreg(s), self.pairreg(s)]
        if k == "tfm":
            a, b = self.pick(["d", "x", "y", "u", "s"]), self.pick(["d", "x", "y", "u", "s"])
            return self.pick(["%s+,%s+", "%s-,%s-", "%s+,%s", "%s,%s+"]) % (a, b)
        if k == "regmem":
            return [self.pick(["cc", "a", "b"]), self.num(self.r.randrange(8)), self.num(self.r.randrange(8)),
                    self.num(self.r.randrange(256))]
        if k == "immmem":
            return self.pick(["", "#"]) + self.num(self.r.randrange(256)) + "," + self.memory(e, syms, pcr)
        raise ValueError(k)

    def op(self, kinds=None):
        ops = ISA[self.isa]
        while True:
            o = self.pick(OPLIST[self.isa])
            if kinds is None or ops[o]["k"] in kinds:
                return o

    def instruction(self, label="", syms=(), near=(), pcr=True, kinds=None):
        o = self.op(kinds)
        return self.line(label, o, self.operands(o, syms, near, pcr))

    # --- data ---

    STRCH = [chr(c) for c in range(32, 127) if chr(c) not in "\"/\\&"]

    def string(self, n=None, interp=False, delim=None):
        n = self.r.choice([1, 1, 2, 3, 5, 9, 20]) if n is None else n
        out = []
        for _ in range(n):
            k = self.r.random()
            if k < 0.03:
                out.append(chr(self.r.randrange(128, 256)))
            elif k < 0.9:
                out.append(self.pick(self.STRCH))
            elif k < 0.93:
                out.append("\\" + self.pick(["n", "r", "\\", "\"", "/", "t", "q", "&"]))
            elif k < 0.95:
                out.append("&&")
            else:
                out.append(self.pick(["\\\"", "\\/"]))
        d = delim or self.pick(["\"", "\"", "/"])
        return d + "".join(out) + d

    def data(self, label="", syms=()):
        k = self.r.randrange(12)
        if k < 4:
            op = self.pick(["fcb", "fcc", "fcn", "fcs", "fcv", "fci"])
            args = []
            for _ in range(self.pick([1, 1, 2, 3, 6])):
                j = self.r.random()
                if j < 0.4:
                    args.append(self.string())
                elif j < 0.55 and syms:
                    args.append(self.near(self.pick(list(syms))))
                else:
                    args.append(self.const(1))
            return self.line(label, op, args)
        if k < 7:
            op = self.pick(["fdb", "fdb", "fqb"])
            return self.line(label, op, [self.near(self.pick(list(syms))) if syms and self.chance(0.5)
                                         else self.const(1) for _ in range(self.pick([1, 1, 2, 4, 9]))])
        if k < 9:
            op = self.pick(["rzb", "fzb", "zmb", "bsz"])
            a = [self.num(self.pick([0, 1, 2, 3, 10, 31, 32, 33, 40, 100]))]
            if self.chance(0.4):
                a.append(self.num(self.r.randrange(256)))
            return self.line(label, op, a)
        if k == 9:
            return self.line(label, "fill", [self.num(self.r.randrange(256)), self.num(self.pick([0, 1, 5, 32, 60]))])
        if k == 10:
            return self.line(label, "rmb", self.num(self.pick([0, 1, 2, 5, 20, 100, 128])))
        a = [self.num(self.pick([1, 2, 4, 8, 16, 32, 3, 5, 7, 256]))]
        if self.chance(0.5):
            a.append(self.num(self.r.randrange(256)))
        return self.line(label, "align", a)


OPLIST = {i: sorted(ISA[i]) for i in ISA}


def text(lines, eol="\n", last=True):
    return eol.join(lines) + (eol if last and lines else "")
