-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Values and the evaluation of expressions.                               *)
(*                                                                         *)
(* A value is a record with the fields                                     *)
(*   t  its type: "undef" "empty" "int" "float" "reg" "str" "arr"          *)
(*   v  int: word; float: see Double; reg: name;                         *)
(*      str: character codes; arr: sequence of values                      *)
(*   a  attribute (see Grammar)                                            *)
(*                                                                         *)
(* The context of an evaluation is a record with the fields                *)
(*   pc                 the program counter                                *)
(*   line, locals       position in, and local labels of, the section      *)
(*   syms               symbol table                                       *)
(*   interp             stack of the arguments of the active macro calls   *)
(*   zero               do undefined symbols count as zero?                *)
(*                                                                         *)
(* The result of one is a record with the fields                           *)
(*   v    value                                                            *)
(*   es   set of the severities of the errors raised                       *)
(*   uns  does it leave the domain of this specification?                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Words, Double, Grammar

\* Severities
Inefficient == 1
Illegal == 2
Inconsistent == 3
OutOfRange == 4
Syntax == 5
DataError == 6
Fatal == 7

Val(t, v, a) == [t |-> t, v |-> v, a |-> a]
Undef == Val("undef", 0, "undef")
Empty == Val("empty", 0, "")
VInt(w) == Val("int", w, "")
VNat(n) == Val("int", WOfInt(n), "")
VReg(r) == Val("reg", r, "")
VStr(c) == Val("str", c, "")

Res(v, es, uns) == [v |-> v, es |-> es, uns |-> uns]
Good(v) == Res(v, {}, FALSE)
Bad(e) == Res(Undef, {e}, FALSE)
OutOfScope == Res(Undef, {}, TRUE)

SetAttr(v, a) == IF v.t = "undef" THEN v ELSE [v EXCEPT !.a = a]

\* A register keeps its increment or decrement unless overridden
SetAttrIf(v, a) ==
  IF v.t = "undef" THEN v
  ELSE IF a # "" THEN [v EXCEPT !.a = a]
  ELSE IF v.a \in {"postinc", "postinc2", "predec", "predec2", "postdec"} THEN v
  ELSE [v EXCEPT !.a = ""]

(***************************************************************************)
(* Characters                                                              *)
(***************************************************************************)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
ChStr == TLCEval([ch \in 32..126 |-> SubSeq(Printable, ch - 31, ch - 31)])
ChLow == TLCEval([ch \in 32..126 |-> IF ch \in 65..90 THEN ChStr[ch + 32] ELSE ChStr[ch]])

RECURSIVE CodesStr(_, _), CodesLow(_, _)
CodesStr(c, i) == IF i > Len(c) THEN "" ELSE ChStr[c[i]] \o CodesStr(c, i + 1)
CodesLow(c, i) == IF i > Len(c) THEN "" ELSE ChLow[c[i]] \o CodesLow(c, i + 1)

RegCodes == TLCEval([r \in RegNames6309 |->
  CASE r = "cc" -> <<99, 99>> [] r = "dp" -> <<100, 112>> [] r = "pc" -> <<112, 99>>
    [] r = "pcr" -> <<112, 99, 114>> [] r = "a" -> <<97>> [] r = "b" -> <<98>>
    [] r = "d" -> <<100>> [] r = "e" -> <<101>> [] r = "f" -> <<102>>
    [] r = "q" -> <<113>> [] r = "s" -> <<115>> [] r = "u" -> <<117>>
    [] r = "v" -> <<118>> [] r = "w" -> <<119>> [] r = "x" -> <<120>>
    [] OTHER -> <<121>>])

RECURSIVE NatCodes(_)
NatCodes(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatCodes(n \div 10), 48 + (n % 10))
IntCodes(n) == IF n < 0 THEN <<45>> \o NatCodes(-n) ELSE NatCodes(n)

Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE StrVal(_, _, _)
StrVal(c, i, acc) ==
  IF i > Len(c) THEN acc
  ELSE StrVal(c, i + 1, LET w == WShl(acc, 8) IN <<w[1] + c[i], w[2], 0, 0>>)

\* Conversion to integer: of numbers and strings.  "undef" if impossible.
ToInt(v) ==
  CASE v.t = "int" -> Good(v)
    [] v.t = "float" ->
         IF DIntOk(v.v) THEN Good(Val("int", DInt(v.v), v.a)) ELSE OutOfScope
    [] v.t = "str" ->
         Good(Val("int", StrVal(v.v, 1, W0), v.a))
    [] OTHER -> Good(Undef)

ToDouble(v) == IF v.t = "float" THEN v.v ELSE DOfWord(v.v)
VFloat(d) == IF DFar(d) THEN OutOfScope ELSE Good(Val("float", d, ""))

Cmp(op, lt, eq) ==
  VInt(WBool(CASE op = "<" -> lt [] op = "<=" -> lt \/ eq [] op = ">" -> ~(lt \/ eq)
               [] op = ">=" -> ~lt [] op = "==" -> eq [] OTHER -> ~eq))

RECURSIVE StrLt(_, _, _)
StrLt(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE StrLt(a, b, i + 1)

Comparisons == {"<", "<=", ">", ">=", "==", "!="}

(***************************************************************************)
(* Operators                                                               *)
(***************************************************************************)
Apply1(op, x) ==
  LET c == IF x.t = "str" THEN ToInt(x) ELSE Good(x)
      v == c.v
      i == ToInt(v)
  IN
  IF c.uns THEN OutOfScope
  ELSE CASE op = "-" ->
              IF v.t = "int" THEN Good(VInt(WNeg(v.v)))
              ELSE IF v.t = "float"
                   THEN Good(Val("float", DNeg(v.v), "")) ELSE Bad(Syntax)
         [] op = "+" -> IF v.t \in {"int", "float"} THEN Good(v) ELSE Bad(Syntax)
         [] op = "!" ->
              IF i.uns THEN OutOfScope
              ELSE IF i.v.t = "undef" THEN Good(VInt(W1))
              ELSE Good(VInt(WBool(i.v.v = W0)))
         [] OTHER ->
              IF i.uns THEN OutOfScope
              ELSE IF i.v.t = "undef" THEN Bad(Syntax)
              ELSE Good(VInt(WNot(i.v.v)))

IntOp(op, x, y) ==
  CASE op = "%" -> IF y = W0 THEN Bad(OutOfRange) ELSE Good(VInt(WRem(x, y)))
    [] op = "<<" -> IF WSmall(y) /\ WInt(y) \in 0..63
                    THEN Good(VInt(WShl(x, WInt(y)))) ELSE OutOfScope
    [] op = ">>" -> IF WSmall(y) /\ WInt(y) \in 0..63
                    THEN Good(VInt(WShr(x, WInt(y)))) ELSE OutOfScope
    [] op = "&" -> Good(VInt(WAnd(x, y)))
    [] op = "|" -> Good(VInt(WOr(x, y)))
    [] op = "^" -> Good(VInt(WXor(x, y)))
    [] op = "&&" -> Good(VInt(WBool(x # W0 /\ y # W0)))
    [] OTHER -> Good(VInt(WBool(x # W0 \/ y # W0)))

Apply2(op, x, y) ==
  IF x.t = "str" /\ y.t = "str" THEN
    IF op \in Comparisons THEN Good(Cmp(op, StrLt(x.v, y.v, 1), x.v = y.v)) ELSE Bad(Syntax)
  ELSE
  LET cx == IF x.t = "str" THEN ToInt(x) ELSE Good(x)
      cy == IF y.t = "str" THEN ToInt(y) ELSE Good(y)
      l == cx.v
      r == cy.v
      num == l.t \in {"int", "float"} /\ r.t \in {"int", "float"}
      ints == l.t = "int" /\ r.t = "int"
      f == ToDouble(l)
      g == ToDouble(r)
      i == ToInt(l)
      j == ToInt(r)
  IN
  IF cx.uns \/ cy.uns THEN OutOfScope
  ELSE IF op \in {"*", "/", "+", "-"} \cup Comparisons THEN
    IF ints /\ op # "/" THEN
      CASE op = "*" -> Good(VInt(WMul(l.v, r.v)))
        [] op = "+" -> Good(VInt(WAdd(l.v, r.v)))
        [] op = "-" -> Good(VInt(WSub(l.v, r.v)))
        [] OTHER -> Good(Cmp(op, WLt(l.v, r.v), l.v = r.v))
    ELSE IF ~num THEN Bad(Syntax)
    ELSE CASE op = "*" -> VFloat(DMul(f, g))
           [] op = "/" -> IF DIsZero(g) THEN Bad(OutOfRange) ELSE VFloat(DDiv(f, g))
           [] op = "+" -> VFloat(DAdd(f, g))
           [] op = "-" -> VFloat(DAdd(f, DNeg(g)))
           [] OTHER -> Good(Cmp(op, DLt(f, g), DEq(f, g)))
  ELSE IF ~num THEN Bad(Syntax)
  ELSE IF i.uns \/ j.uns THEN OutOfScope
  ELSE IntOp(op, i.v.v, j.v.v)

(***************************************************************************)
(* Local labels: of the definitions of n in the section, the last at or    *)
(* before the line, or the first after it.                                 *)
(***************************************************************************)

LocalDefs(c, n) == {d \in DOMAIN c.locals : d[1] = n}

Back(c, n) ==
  LET S == {d[2] : d \in {e \in LocalDefs(c, n) : e[2] <= c.line}}
  IN IF S = {} THEN Bad(Inconsistent) ELSE Good(c.locals[<<n, Max(S)>>].v)

Fwd(c, n) ==
  LET S == {d[2] : d \in {e \in LocalDefs(c, n) : e[2] > c.line}}
  IN IF S = {} THEN Bad(Inconsistent) ELSE Good(c.locals[<<n, Min(S)>>].v)

(***************************************************************************)
(* Positional variables                                                    *)
(***************************************************************************)
Interp(c, n) ==
  IF c.interp = <<>> THEN Bad(Syntax)
  ELSE LET args == c.interp[Len(c.interp)]
       IN IF n \in 1..Len(args) THEN Good(args[n]) ELSE Bad(Syntax)

(***************************************************************************)
(* Symbols, and names pasted together.  Names are pairs <<name, lowercase  *)
(* name>>; the result of pasting has codes in v.v for text.                *)
(***************************************************************************)
Known(c, name) == name \in DOMAIN c.syms /\ c.syms[name].v.t # "undef"
SymGet(c, name) ==
  IF Known(c, name) THEN Good(c.syms[name].v)
  ELSE IF c.zero THEN Good(VInt(W0)) ELSE Bad(Inconsistent)

PieceCodes(v) ==
  CASE v.t = "str" -> v.v
    [] v.t = "reg" -> RegCodes[v.v]
    [] OTHER -> IntCodes(WInt(v.v))

\* Can the value of a positional variable be part of a name or text?
Pasteable(v) == \/ v.t \in {"str", "int"}
                \/ v.t = "reg" /\ v.a = ""
PieceUnsup(v) == \/ v.t = "int" /\ ~WSmall(v.v)

\* name: [ok, s, l, es, uns]
NameRes(ok, s, l, es, uns) == [ok |-> ok, s |-> s, l |-> l, es |-> es, uns |-> uns]

RECURSIVE Name(_, _, _, _, _)
Name(c, parts, i, s, l) ==
  IF i > Len(parts) THEN NameRes(TRUE, s, l, {}, FALSE)
  ELSE IF parts[i][1] = "S" THEN Name(c, parts, i + 1, s \o parts[i][2], l \o parts[i][3])
  ELSE LET r == Interp(c, parts[i][2])
           v == r.v
       IN IF v.t = "undef" THEN NameRes(FALSE, "", "", r.es, r.uns)
          ELSE IF PieceUnsup(v) THEN NameRes(FALSE, "", "", {}, TRUE)
          ELSE IF ~Pasteable(v) THEN NameRes(FALSE, "", "", {}, FALSE)
          ELSE LET pc == PieceCodes(v)
               IN IF \E k \in 1..Len(pc) : pc[k] \notin 32..126
                  THEN NameRes(FALSE, "", "", {}, TRUE)
                  ELSE Name(c, parts, i + 1, s \o CodesStr(pc, 1), l \o CodesLow(pc, 1))

RECURSIVE Text(_, _, _, _)
Text(c, parts, i, acc) ==
  IF i > Len(parts) THEN Good(VStr(acc))
  ELSE IF parts[i][1] = "T" THEN Text(c, parts, i + 1, acc \o parts[i][2])
  ELSE LET r == Interp(c, parts[i][2])
           v == r.v
       IN IF v.t = "undef" THEN r
          ELSE IF PieceUnsup(v) THEN OutOfScope
          ELSE IF ~Pasteable(v) THEN Good(Undef)
          ELSE Text(c, parts, i + 1, acc \o PieceCodes(v))

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
RECURSIVE Ev(_, _, _), EvArgs(_, _)

Join(r, es, uns) == Res(r.v, r.es \cup es, r.uns \/ uns)

Ev(c, n, a) ==
  CASE n[1] = "int" -> Good(Val("int", n[2], a))
    [] n[1] = "id" ->
         IF Len(n[2]) = 1 /\ n[2][1][1] = "I"
         THEN LET r == Interp(c, n[2][1][2]) IN Res(SetAttrIf(r.v, a), r.es, r.uns)
         ELSE LET nm == Name(c, n[2], 1, "", "")
              IN IF ~nm.ok THEN Res(Undef, nm.es, nm.uns)
                 ELSE LET r == SymGet(c, nm.s)
                      IN \* a prefix on a register's name alters the register
                         IF r.v.t = "reg" /\ a # "" THEN OutOfScope
                         ELSE Res(SetAttrIf(r.v, a), r.es, r.uns)
    [] n[1] = "pc" -> Good(Val("int", WOfInt(c.pc), a))
    [] n[1] = "reg" -> Good(Val("reg", n[2], a))
    [] n[1] = "empty" -> Good(Empty)
    [] n[1] = "text" -> LET r == Text(c, n[2], 1, <<>>) IN Res(SetAttr(r.v, a), r.es, r.uns)
    [] n[1] = "back" -> LET r == Back(c, n[2]) IN Res(SetAttr(r.v, a), r.es, r.uns)
    [] n[1] = "fwd" -> LET r == Fwd(c, n[2]) IN Res(SetAttr(r.v, a), r.es, r.uns)
    [] n[1] = "float" -> Good(Val("float", DDecimal(n[2], n[3]), a))
    [] n[1] = "op1" ->
         LET x == Ev(c, n[3], "")
         IN IF x.v.t = "undef" \/ x.uns THEN Res(Undef, x.es, x.uns)
            ELSE LET r == Apply1(n[2], x.v) IN Res(SetAttr(r.v, a), r.es \cup x.es, r.uns)
    [] n[1] = "op2" ->
         LET x == Ev(c, n[3], "") IN
         IF x.v.t = "undef" \/ x.uns THEN Res(Undef, x.es, x.uns)
         ELSE LET y == Ev(c, n[4], "") IN
              IF y.v.t = "undef" \/ y.uns THEN Res(Undef, x.es \cup y.es, y.uns)
              ELSE LET r == Apply2(n[2], x.v, y.v)
                   IN Res(SetAttr(r.v, a), r.es \cup x.es \cup y.es, r.uns)
    [] n[1] = "op3" ->
         LET x == Ev(c, n[2], "") IN
         IF x.v.t = "undef" \/ x.uns THEN Res(Undef, x.es, x.uns)
         ELSE LET i == ToInt(x.v) IN
              IF i.uns THEN OutOfScope
              ELSE IF i.v.t = "undef" THEN Res(Undef, x.es \cup {Syntax}, FALSE)
              ELSE LET r == Ev(c, IF i.v.v # W0 THEN n[3] ELSE n[4], "")
                   IN IF r.v.t = "reg" THEN OutOfScope
                      ELSE Res(SetAttr(r.v, a), r.es \cup x.es, r.uns)
    [] OTHER -> \* "arr"
         LET r == EvArgs(c, n[2]) IN Res(Val("arr", r.v, a), r.es, r.uns)

\* A list of arguments; the result's v is a sequence of values
EvArgs(c, args) ==
  LET rs == TLCEval([i \in 1..Len(args) |-> Ev(c, args[i].n, args[i].a)])
  IN [v |-> TLCEval([i \in 1..Len(args) |-> rs[i].v]),
      es |-> UNION {rs[i].es : i \in 1..Len(args)},
      uns |-> \E i \in 1..Len(args) : rs[i].uns]

(***************************************************************************)
(* Symbols that are undefined but taken for zero in evaluating n.          *)
(***************************************************************************)
RECURSIVE Zeros(_, _)
Zeros(c, n) ==
  CASE n[1] = "id" ->
         LET nm == Name(c, n[2], 1, "", "")
         IN IF (Len(n[2]) = 1 /\ n[2][1][1] = "I") \/ ~nm.ok \/ Known(c, nm.s) THEN {} ELSE {nm.s}
    [] n[1] = "op1" -> Zeros(c, n[3])
    [] n[1] = "op2" ->
         Zeros(c, n[3]) \cup (IF Ev(c, n[3], "").v.t = "undef" THEN {} ELSE Zeros(c, n[4]))
    [] n[1] = "op3" ->
         LET i == ToInt(Ev(c, n[2], "").v)
         IN Zeros(c, n[2]) \cup (IF i.uns \/ i.v.t = "undef" THEN {}
                                 ELSE Zeros(c, IF i.v.v # W0 THEN n[3] ELSE n[4]))
    [] n[1] = "arr" -> UNION {Zeros(c, n[2][i].n) : i \in 1..Len(n[2])}
    [] OTHER -> {}

\* The arguments of a condition
EvCond(c, args) ==
  LET r == EvArgs(c, args)
  IN [v |-> r.v, es |-> r.es, uns |-> r.uns,
      zero |-> UNION {Zeros(c, args[i].n) : i \in 1..Len(args)}]

\* Equality of values between passes
ValEq(x, y) == /\ x.t \in {"int", "float", "reg", "str"}
               /\ x.t = y.t
               /\ IF x.t = "float" THEN DEq(x.v, y.v) ELSE x.v = y.v
==============================================================================
