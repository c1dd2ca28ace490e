--------------------------------- MODULE Isa ---------------------------------
(***************************************************************************)
(* The instruction sets of the MC6809 and the HD6309: for each mnemonic    *)
(* the forms it has and its opcodes, and the encoding of operands.         *)
(*                                                                         *)
(* The opcodes are not tabulated one by one but follow the regular layout  *)
(* of the opcode map: the opcode of a read-modify-write operation in       *)
(* direct mode plus $40 to $70 gives its other forms, that of an           *)
(* accumulator operation in immediate mode plus $10 to $30 those in        *)
(* direct, indexed and extended mode.  $10 or $11 in the high byte is a    *)
(* prefix byte.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Eval

NoForm == -1

Op(k, imm, dir, idx, ext) ==
  [k |-> k, imm |-> imm, dir |-> dir, idx |-> idx, ext |-> ext]
Simple(k, o) == Op(k, o, NoForm, NoForm, NoForm)

\* Sets of <<mnemonic, entry>> made into a function
AsMap(S) == [n \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = n)[2]]

\* Read-modify-write operations
Rmw == {<<"neg", 0>>, <<"com", 3>>, <<"lsr", 4>>, <<"ror", 6>>, <<"asr", 7>>,
        <<"asl", 8>>, <<"lsl", 8>>, <<"rol", 9>>, <<"dec", 10>>, <<"inc", 12>>,
        <<"tst", 13>>, <<"clr", 15>>}
RmwMem == {<<p[1], Op("mem", NoForm, p[2], 96 + p[2], 112 + p[2])>>
             : p \in Rmw \cup {<<"jmp", 14>>}}
RmwReg(suffix, base, names) ==
  {<<p[1] \o suffix, Simple("inh", base + p[2])>> : p \in {q \in Rmw : q[1] \in names}}
AllRmw == {p[1] : p \in Rmw}

Inherent(S) == {<<p[1], Simple("inh", p[2])>> : p \in S}

\* Accumulator operations; o is the opcode in immediate mode
AluOps(kind, S) == {<<p[1], Op(kind, p[2], p[2] + 16, p[2] + 32, p[2] + 48)>> : p \in S}
MemOps(S) == {<<p[1], Op("mem", NoForm, p[2] + 16, p[2] + 32, p[2] + 48)>> : p \in S}

Alu8 == {<<"suba", 0>>, <<"cmpa", 1>>, <<"sbca", 2>>, <<"anda", 4>>, <<"bita", 5>>,
         <<"lda", 6>>, <<"ldaa", 6>>, <<"eora", 8>>, <<"adca", 9>>, <<"ora", 10>>,
         <<"oraa", 10>>, <<"adda", 11>>}
Alu8b == {<<"subb", 0>>, <<"cmpb", 1>>, <<"sbcb", 2>>, <<"andb", 4>>, <<"bitb", 5>>,
          <<"ldb", 6>>, <<"ldab", 6>>, <<"eorb", 8>>, <<"adcb", 9>>, <<"orb", 10>>,
          <<"orab", 10>>, <<"addb", 11>>}
Plus(b, S) == {<<p[1], p[2] + b>> : p \in S}

P10 == 4096    \* $1000
P11 == 4352    \* $1100

Conds == {<<"rn", 1>>, <<"hi", 2>>, <<"ls", 3>>, <<"cc", 4>>, <<"hs", 4>>, <<"cs", 5>>,
          <<"lo", 5>>, <<"ne", 6>>, <<"eq", 7>>, <<"vc", 8>>, <<"vs", 9>>, <<"pl", 10>>,
          <<"mi", 11>>, <<"ge", 12>>, <<"lt", 13>>, <<"gt", 14>>, <<"le", 15>>}
Branches ==
  {<<"b" \o p[1], Simple("rel8", 32 + p[2])>> : p \in Conds \cup {<<"ra", 0>>}}
  \cup {<<"lb" \o p[1], Simple("rel16", P10 + 32 + p[2])>> : p \in Conds}
  \cup {<<"bsr", Simple("rel8", 141)>>, <<"lbra", Simple("rel16", 22)>>,
        <<"lbsr", Simple("rel16", 23)>>}

Set6809 ==
  RmwMem \cup RmwReg("a", 64, AllRmw) \cup RmwReg("b", 80, AllRmw)
  \cup Inherent({<<"nop", 18>>, <<"sync", 19>>, <<"daa", 25>>, <<"sex", 29>>,
                 <<"rts", 57>>, <<"abx", 58>>, <<"rti", 59>>, <<"mul", 61>>,
                 <<"swi", 63>>, <<"swi2", P10 + 63>>, <<"swi3", P11 + 63>>})
  \cup {<<"orcc", Simple("imm8", 26)>>, <<"andcc", Simple("imm8", 28)>>,
        <<"cwai", Simple("imm8", 60)>>,
        <<"exg", Simple("pair", 30)>>, <<"tfr", Simple("pair", 31)>>,
        <<"pshs", Simple("stks", 52)>>, <<"puls", Simple("stks", 53)>>,
        <<"pshu", Simple("stku", 54)>>, <<"pulu", Simple("stku", 55)>>,
        <<"leax", Op("mem", NoForm, NoForm, 48, NoForm)>>,
        <<"leay", Op("mem", NoForm, NoForm, 49, NoForm)>>,
        <<"leas", Op("mem", NoForm, NoForm, 50, NoForm)>>,
        <<"leau", Op("mem", NoForm, NoForm, 51, NoForm)>>}
  \cup Branches
  \cup AluOps("imm8", Plus(128, Alu8)) \cup AluOps("imm8", Plus(192, Alu8b))
  \cup AluOps("imm16", {<<"subd", 131>>, <<"cmpx", 140>>, <<"cpx", 140>>, <<"ldx", 142>>,
                        <<"addd", 195>>, <<"ldd", 204>>, <<"ldu", 206>>,
                        <<"cmpd", P10 + 131>>, <<"cmpy", P10 + 140>>, <<"ldy", P10 + 142>>,
                        <<"lds", P10 + 206>>,
                        <<"cmpu", P11 + 131>>, <<"cmps", P11 + 140>>})
  \cup MemOps({<<"sta", 135>>, <<"staa", 135>>, <<"stx", 143>>, <<"jsr", 141>>,
               <<"stb", 199>>, <<"stab", 199>>, <<"std", 205>>, <<"stu", 207>>,
               <<"sty", P10 + 143>>, <<"sts", P10 + 207>>})

Bits == {<<"band", 0>>, <<"biand", 1>>, <<"bor", 2>>, <<"bior", 3>>, <<"beor", 4>>,
         <<"bieor", 5>>, <<"ldbt", 6>>, <<"stbt", 7>>}
InterReg == {<<"addr", 0>>, <<"adcr", 1>>, <<"subr", 2>>, <<"sbcr", 3>>, <<"andr", 4>>,
             <<"orr", 5>>, <<"eorr", 6>>, <<"cmpr", 7>>}

Set6309 ==
  {<<p[1], Op("immmem", NoForm, p[2], 96 + p[2], 112 + p[2])>>
     : p \in {<<"oim", 1>>, <<"aim", 2>>, <<"eim", 5>>, <<"tim", 11>>}}
  \cup RmwReg("d", P10 + 64, AllRmw)
  \cup RmwReg("w", P10 + 80, {"com", "lsr", "ror", "rol", "dec", "inc", "tst", "clr"})
  \cup RmwReg("e", P11 + 64, {"com", "dec", "inc", "tst", "clr"})
  \cup RmwReg("f", P11 + 80, {"com", "dec", "inc", "tst", "clr"})
  \cup Inherent({<<"sexw", 20>>, <<"pshsw", P10 + 56>>, <<"pulsw", P10 + 57>>,
                 <<"pshuw", P10 + 58>>, <<"puluw", P10 + 59>>})
  \cup {<<p[1], Simple("pair", P10 + 48 + p[2])>> : p \in InterReg}
  \cup {<<p[1], Op("regmem", NoForm, P11 + 48 + p[2], NoForm, NoForm)>> : p \in Bits}
  \cup {<<"tfm", Simple("tfm", P11 + 56)>>,
        <<"bitmd", Simple("imm8", P11 + 60)>>, <<"ldmd", Simple("imm8", P11 + 61)>>,
        <<"ldq", Op("imm32", 205, P10 + 220, P10 + 236, P10 + 252)>>,
        <<"stq", Op("mem", NoForm, P10 + 221, P10 + 237, P10 + 253)>>}
  \cup AluOps("imm16", {<<"subw", P10 + 128>>, <<"cmpw", P10 + 129>>, <<"sbcd", P10 + 130>>,
                        <<"andd", P10 + 132>>, <<"bitd", P10 + 133>>, <<"ldw", P10 + 134>>,
                        <<"eord", P10 + 136>>, <<"adcd", P10 + 137>>, <<"ord", P10 + 138>>,
                        <<"addw", P10 + 139>>, <<"divq", P11 + 142>>, <<"muld", P11 + 143>>})
  \cup AluOps("imm8", {<<"sube", P11 + 128>>, <<"cmpe", P11 + 129>>, <<"lde", P11 + 134>>,
                       <<"adde", P11 + 139>>, <<"divd", P11 + 141>>, <<"subf", P11 + 192>>,
                       <<"cmpf", P11 + 193>>, <<"ldf", P11 + 198>>, <<"addf", P11 + 203>>})
  \cup MemOps({<<"stw", P10 + 135>>, <<"ste", P11 + 135>>, <<"stf", P11 + 199>>})

Ops6809 == TLCEval(AsMap(Set6809))
Ops6309 == TLCEval(AsMap(Set6809 \cup Set6309))
Ops(isa) == IF isa = 6309 THEN Ops6309 ELSE Ops6809

OpBytes(o) == IF o >= 256 THEN <<o \div 256, o % 256>> ELSE <<o>>

(***************************************************************************)
(* Encoding.  Result: bytes generated, severities of the errors raised,    *)
(* whether out of this specification's scope.                              *)
(***************************************************************************)
Enc(b, es) == [b |-> b, es |-> es, uns |-> FALSE]
EncUns == [b |-> <<>>, es |-> {}, uns |-> TRUE]
EncAdd(b, e) == [b |-> b \o e.b, es |-> e.es, uns |-> e.uns]

Word16(n) == <<(n % 65536) \div 256, n % 256>>

\* Modulo 2^16, as a signed number
Signed16(n) == ((n + 32768) % 65536) - 32768

SmallPair(v) == v.t = "int" /\ WSmall(v.v)
IntIn(v, lo, hi) == SmallPair(v) /\ WInt(v.v) >= lo /\ WInt(v.v) <= hi

(***************************************************************************)
(* Indexed addressing with two arguments.  pc is the address of the        *)
(* postbyte.                                                               *)
(***************************************************************************)
IdxSelect == TLCEval([r \in {"x", "y", "u", "s"} |->
                CASE r = "x" -> 0 [] r = "y" -> 32 [] r = "u" -> 64 [] OTHER -> 96])
AccPost == TLCEval([r \in {"a", "b", "d", "e", "f", "w"} |->
              CASE r = "a" -> 134 [] r = "b" -> 133 [] r = "d" -> 139
                [] r = "e" -> 135 [] r = "f" -> 138 [] OTHER -> 142])

InvalidMode == Enc(<<>>, {Syntax})

\* Index register X, Y, U or S
IndexedR(ind, off, r, attr) ==
  LET sel == IdxSelect[r]
      i16 == IF ind THEN 16 ELSE 0
      zero == off.t = "empty" \/ (off.t = "int" /\ off.a = "" /\ off.v = W0)
      Post(p) == Enc(<<p + sel + i16>>, {})
      Off8 == Enc(<<136 + sel + i16, off.v[1] % 256>>, {})
      Off16 == Enc(<<137 + sel + i16>> \o WBytes2(off.v), {})
      Off5 == Enc(<<sel + (off.v[1] % 32)>>, {})
  IN
  CASE attr = "" ->
         IF zero THEN Post(132)
         ELSE IF off.t = "reg" THEN
           (IF off.a = "" /\ off.v \in DOMAIN AccPost THEN Post(AccPost[off.v]) ELSE InvalidMode)
         ELSE IF off.t # "int" THEN InvalidMode
         ELSE IF off.a = "5bit" THEN (IF ind THEN InvalidMode ELSE Off5)
         ELSE IF off.a = "8bit" THEN Off8
         ELSE IF off.a = "16bit" THEN Off16
         ELSE IF off.a # "" THEN InvalidMode
         ELSE IF ~ind /\ IntIn(off, -16, 15) THEN Off5
         ELSE IF IntIn(off, -128, 127) THEN Off8
         ELSE Off16
    [] attr = "postinc" ->
         IF zero THEN Enc(<<128 + sel + i16>>, IF ind THEN {Illegal} ELSE {}) ELSE InvalidMode
    [] attr = "postinc2" -> IF zero THEN Post(129) ELSE InvalidMode
    [] attr = "predec" ->
         IF zero THEN Enc(<<130 + sel + i16>>, IF ind THEN {Illegal} ELSE {}) ELSE InvalidMode
    [] attr = "predec2" -> IF zero THEN Post(131) ELSE InvalidMode
    [] OTHER -> InvalidMode

\* Offsets from the program counter.  With PCR the operand is the address.
IndexedP(ind, off, pcr, attr, pc) ==
  LET i16 == IF ind THEN 16 ELSE 0
      isint == off.t = "int"
      rel8 == IF ~pcr THEN IntIn(off, -128, 127)
              ELSE LET d == Signed16(off.v[1] - (pc + 2)) IN d >= -128 /\ d <= 127
      v8 == IF pcr THEN (off.v[1] - (pc + 2)) % 256 ELSE off.v[1] % 256
      v16 == IF pcr THEN Word16(off.v[1] - (pc + 3)) ELSE WBytes2(off.v)
      Off8 == Enc(<<140 + i16, v8>>, {})
      Off16 == Enc(<<141 + i16>> \o v16, {})
  IN IF attr # "" THEN InvalidMode
     ELSE IF off.t = "empty" THEN Enc(<<140 + i16, 0>>, {})
     ELSE IF ~isint THEN InvalidMode
     ELSE IF off.a = "8bit" THEN Off8
     ELSE IF off.a = "16bit" THEN Off16
     ELSE IF off.a # "" THEN InvalidMode
     ELSE IF rel8 THEN Off8 ELSE Off16

\* Offsets from W
IndexedW(ind, off, attr) ==
  LET i1 == IF ind THEN 1 ELSE 0
      zero == off.t = "empty" \/ (off.t = "int" /\ off.a = "" /\ off.v = W0)
  IN CASE attr = "" ->
            IF zero THEN Enc(<<143 + i1>>, {})
            ELSE IF off.t = "int" /\ off.a \in {"", "16bit"}
              THEN Enc(<<175 + i1>> \o WBytes2(off.v), {}) ELSE InvalidMode
       [] attr = "postinc2" -> IF zero THEN Enc(<<207 + i1>>, {}) ELSE InvalidMode
       [] attr = "predec2" -> IF zero THEN Enc(<<239 + i1>>, {}) ELSE InvalidMode
       [] OTHER -> InvalidMode

Indexed2(ind, off, r, pc) ==
  IF off.t = "undef" \/ r.t = "undef" THEN Enc(<<0>>, {})
  ELSE IF r.t # "reg" THEN InvalidMode
  ELSE IF r.v \in DOMAIN IdxSelect THEN IndexedR(ind, off, r.v, r.a)
  ELSE IF r.v = "pc" THEN IndexedP(ind, off, FALSE, r.a, pc)
  ELSE IF r.v = "pcr" THEN IndexedP(ind, off, TRUE, r.a, pc)
  ELSE IF r.v = "w" THEN IndexedW(ind, off, r.a)
  ELSE InvalidMode

IndexedOp(op, args, pre, c) ==
  LET ind == Len(args) = 1 /\ args[1].t = "arr"
      a == IF ind THEN args[1].v ELSE args
      head == OpBytes(op.idx) \o pre
      c1 == IF a # <<>> /\ a[1].t = "str" THEN ToInt(a[1]) ELSE Good(IF a = <<>> THEN Undef ELSE a[1])
      x == c1.v
      one == IF x.t \notin {"undef", "int"} \/ x.a \notin {"undef", "", "16bit"}
             THEN Enc(<<>>, {Syntax})
             ELSE Enc(<<IF ind THEN 159 ELSE 143>> \o (IF x.t = "int" THEN WBytes2(x.v) ELSE <<0, 0>>),
                      IF ind THEN {} ELSE {Illegal})
  IN IF Len(a) \notin 1..2 THEN Enc(<<>>, {Syntax})
     ELSE IF c1.uns THEN EncUns
     ELSE IF Len(a) = 1 THEN EncAdd(head, one)
     ELSE EncAdd(head, Indexed2(ind, x, a[2], c.pc + Len(head)))

(***************************************************************************)
(* Operands in memory: direct, extended or indexed                         *)
(***************************************************************************)
AddressOp(op, args, pre, c) ==
  LET i == ToInt(args[1])
      und == args[1].t = "undef"
      addr == IF und THEN c.pc % 65536 ELSE i.v.v[1]
      attr == IF und THEN "16bit" ELSE i.v.a
  IN IF Len(args) \notin 1..2 THEN Enc(<<>>, {Syntax})
     ELSE IF Len(args) = 2 \/ args[1].t = "arr" THEN IndexedOp(op, args, pre, c)
     ELSE IF i.uns THEN EncUns
     ELSE IF i.v.t = "undef" /\ ~und THEN Enc(<<>>, {Syntax})
     ELSE IF /\ op.dir # NoForm
             /\ attr = "8bit" \/ (attr = "" /\ c.dp = addr \div 256)
       THEN Enc(OpBytes(op.dir) \o pre \o <<addr % 256>>, {})
     ELSE IF op.ext # NoForm /\ attr \in {"", "16bit"}
       THEN Enc(OpBytes(op.ext) \o pre \o Word16(addr), {})
     ELSE IndexedOp(op, args, pre, c)

ImmediateOp(op, args) ==
  LET i == ToInt(args[1])
      w == IF i.v.t = "int" THEN i.v.v ELSE W0
      bad == i.v.t = "undef" /\ args[1].t # "undef"
      b == CASE op.k = "imm8" -> WBytes1(w) [] op.k = "imm16" -> WBytes2(w) [] OTHER -> WBytes4(w)
  IN IF Len(args) # 1 THEN Enc(<<>>, {Syntax})
     ELSE IF i.uns THEN EncUns
     ELSE Enc(OpBytes(op.imm) \o b, IF bad THEN {Syntax} ELSE {})

BranchOp(op, args, c) ==
  LET head == OpBytes(op.imm)
      a == args[1]
      d == Signed16(a.v[1] - (c.pc + Len(head) + 1))   \* as an 8 bit displacement
      far == d < -128 \/ d > 127
      imm == IF a.a = "imm" THEN {Syntax} ELSE {}
  IN IF Len(args) # 1 THEN Enc(<<>>, {Syntax})
     ELSE IF a.t # "int"
       THEN Enc(head \o (IF op.k = "rel8" THEN <<0>> ELSE <<0, 0>>),
                IF a.t = "undef" THEN {} ELSE {Syntax})
     ELSE IF op.k = "rel8"
       THEN Enc(Append(head, d % 256), imm \cup (IF far THEN {OutOfRange} ELSE {}))
     ELSE Enc(head \o Word16(d - 1),
              imm \cup (IF far \/ a.a = "16bit" THEN {} ELSE {Inefficient}))

ImmMemOp(op, args, c) ==
  LET i == ToInt(args[1])
      v == IF i.v.t = "int" THEN i.v.v[1] % 256 ELSE 0
  IN IF Len(args) \notin 2..3 THEN Enc(<<>>, {Syntax})
     ELSE IF i.uns THEN EncUns
     ELSE IF i.v.t = "undef" /\ args[1].t # "undef" THEN Enc(<<>>, {Syntax})
     ELSE AddressOp(op, Tail(args), <<v>>, c)

(***************************************************************************)
(* Registers                                                               *)
(***************************************************************************)
StackBits(r, other) ==
  CASE r = "cc" -> {0} [] r = "a" -> {1} [] r = "b" -> {2} [] r = "d" -> {1, 2}
    [] r = "dp" -> {3} [] r = "x" -> {4} [] r = "y" -> {5} [] r = "pc" -> {7}
    [] r = other -> {6} [] OTHER -> {}

RECURSIVE SumBits(_)
SumBits(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2^x + SumBits(S \ {x})

StackOp(op, args) ==
  LET other == IF op.k = "stks" THEN "u" ELSE "s"
      bits == UNION {StackBits(args[i].v, other) : i \in 1..Len(args)}
      ok(v) == v.t = "reg" /\ v.a = "" /\ StackBits(v.v, other) # {}
  IN IF \A i \in 1..Len(args) : ok(args[i])
     THEN Enc(Append(OpBytes(op.imm), SumBits(bits)), {})
     ELSE Enc(<<>>, {Syntax})

\* Codes and sizes of registers in a pair
PairCode(r) ==
  CASE r = "d" -> 0 [] r = "x" -> 1 [] r = "y" -> 2 [] r = "u" -> 3 [] r = "s" -> 4
    [] r = "pc" -> 5 [] r = "w" -> 6 [] r = "v" -> 7 [] r = "a" -> 8 [] r = "b" -> 9
    [] r = "cc" -> 10 [] r = "dp" -> 11 [] r = "e" -> 14 [] r = "f" -> 15 [] OTHER -> -1
PairSize(r) == IF r \in {"a", "b", "cc", "dp", "e", "f"} THEN {8} ELSE {16}

\* [ok, n (code), sz (possible sizes), es]
PairArg(v, isa) ==
  IF v.t = "reg" THEN
    [ok |-> PairCode(v.v) >= 0 /\ v.a = "", n |-> PairCode(v.v), sz |-> PairSize(v.v), es |-> {}]
  ELSE IF v.t = "int" THEN
    IF v.v = W0 /\ isa = 6309 THEN [ok |-> TRUE, n |-> 12, sz |-> {8, 16}, es |-> {}]
    ELSE [ok |-> TRUE, n |-> v.v[1] % 16, sz |-> {8, 16},
          es |-> {Illegal} \cup (IF IntIn(v, 0, 15) THEN {} ELSE {OutOfRange})]
  ELSE [ok |-> v.t = "undef", n |-> 0, sz |-> {8, 16}, es |-> {}]

PairOp(op, args, c) ==
  LET x == PairArg(args[1], c.isa)
      y == PairArg(args[2], c.isa)
      mism == IF x.sz \cap y.sz = {} THEN {Illegal} ELSE {}
  IN IF Len(args) # 2 THEN Enc(<<>>, {Syntax})
     ELSE IF \E i \in 1..2 : args[i].t = "int" /\ ~WSmall(args[i].v) THEN EncUns
     ELSE IF ~x.ok THEN Enc(<<>>, {Syntax})
     ELSE IF ~y.ok THEN Enc(<<>>, {Syntax} \cup x.es)
     ELSE Enc(Append(OpBytes(op.imm), 16 * x.n + y.n), x.es \cup y.es \cup mism)

TfmOp(op, args) ==
  LET Code(v) == IF v.t = "reg" THEN PairCode(v.v) ELSE IF v.t = "int" THEN v.v[1] % 16 ELSE 0
      ok(v) == CASE v.t = "reg" -> PairCode(v.v) \in 0..4 [] OTHER -> v.t \in {"int", "undef"}
      es(v) == IF v.t # "int" THEN {}
               ELSE {Illegal} \cup (IF IntIn(v, 0, 4) THEN {} ELSE {OutOfRange})
      x == args[1]
      y == args[2]
      mode == CASE x.a = "postinc" /\ y.a = "postinc" -> 0
                [] x.a = "postdec" /\ y.a = "postdec" -> 1
                [] x.a = "postinc" /\ y.a = "" -> 2
                [] x.a = "" /\ y.a = "postinc" -> 3
                [] OTHER -> -1
  IN IF Len(args) # 2 THEN Enc(<<>>, {Syntax})
     ELSE IF \E i \in 1..2 : args[i].t = "int" /\ ~WSmall(args[i].v) THEN EncUns
     ELSE IF ~ok(x) THEN Enc(<<>>, {Syntax})
     ELSE IF ~ok(y) THEN Enc(<<>>, {Syntax} \cup es(x))
     ELSE IF mode < 0 THEN Enc(<<>>, {Syntax} \cup es(x) \cup es(y))
     ELSE Enc(OpBytes(op.imm + mode) \o <<16 * Code(x) + Code(y)>>, es(x) \cup es(y))

RegMemOp(op, args) ==
  LET r == args[1]
      rcode == CASE r.t = "reg" /\ r.v = "cc" -> 0 [] r.t = "reg" /\ r.v = "a" -> 64
                 [] r.t = "reg" /\ r.v = "b" -> 128
                 [] r.t = "int" -> 64 * (r.v[1] % 4) [] OTHER -> 192
      rok == \/ r.t \in {"undef", "int"}
             \/ r.t = "reg" /\ r.a = "" /\ r.v \in {"cc", "a", "b"}
      res == IF r.t = "int" THEN {Illegal} ELSE {}
      Bit(v) == IF IntIn(v, 0, 7) THEN WInt(v.v) ELSE 0
      bes(v) == IF v.t = "int" /\ ~IntIn(v, 0, 7) THEN {OutOfRange} ELSE {}
      vok(v) == v.t \in {"int", "undef"}
      last == IF args[4].t = "int" THEN args[4].v[1] % 256 ELSE 0
  IN IF Len(args) # 4 THEN Enc(<<>>, {Syntax})
     ELSE IF ~rok THEN Enc(<<>>, {Syntax})
     ELSE IF ~vok(args[2]) THEN Enc(<<>>, {Syntax} \cup res)
     ELSE IF ~vok(args[3]) THEN Enc(<<>>, {Syntax} \cup res \cup bes(args[2]))
     ELSE IF ~vok(args[4]) THEN Enc(<<>>, {Syntax} \cup res \cup bes(args[2]) \cup bes(args[3]))
     ELSE Enc(OpBytes(op.dir) \o <<rcode + 8 * Bit(args[2]) + Bit(args[3]), last>>,
              res \cup bes(args[2]) \cup bes(args[3]))

(***************************************************************************)
(* An instruction with arguments args; imm tells that the first is written *)
(* as an immediate.  c has the fields pc, dp and isa.                      *)
(***************************************************************************)
RECURSIVE FloatToInt(_)
FloatToInt(args) ==
  LET rs == TLCEval([i \in 1..Len(args) |->
               IF args[i].t = "float" THEN ToInt(args[i])
               ELSE IF args[i].t = "arr"
                 THEN LET r == FloatToInt(args[i].v)
                      IN Res([args[i] EXCEPT !.v = r.v], {}, r.uns)
               ELSE Good(args[i])])
  IN [v |-> TLCEval([i \in 1..Len(args) |-> rs[i].v]), uns |-> \E i \in 1..Len(args) : rs[i].uns]

Encode(op, rawargs, imm, c) ==
  LET f == FloatToInt(rawargs)
      args == f.v
  IN
  IF f.uns THEN EncUns
  ELSE CASE op.k = "inh" -> Enc(OpBytes(op.imm), IF args = <<>> THEN {} ELSE {Syntax})
         [] op.k \in {"imm8", "imm16", "imm32"} /\ imm -> ImmediateOp(op, args)
         [] op.k = "immmem" -> ImmMemOp(op, args, c)
         [] op.k \in {"mem", "imm8", "imm16", "imm32"} ->
              IF op.idx = NoForm \/ args = <<>> THEN Enc(<<>>, {Syntax})
              ELSE AddressOp(op, args, <<>>, c)
         [] op.k \in {"rel8", "rel16"} -> IF args = <<>> THEN Enc(<<>>, {Syntax}) ELSE BranchOp(op, args, c)
         [] op.k \in {"stks", "stku"} -> StackOp(op, args)
         [] op.k = "pair" -> PairOp(op, args, c)
         [] op.k = "tfm" -> TfmOp(op, args)
         [] OTHER -> RegMemOp(op, args)

\* Mnemonics of each set, for the checks of completeness
Mnem6809 == TLCEval(DOMAIN Ops6809)
Mnem6309 == TLCEval(DOMAIN Ops6309)
Mnemonics(isa) == IF isa = 6309 THEN Mnem6309 ELSE Mnem6809
==============================================================================
