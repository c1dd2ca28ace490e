------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* Syntactic structure of a source line: label, instruction, arguments.    *)
(*                                                                         *)
(* Expressions are tuples whose first element names their kind:            *)
(*   <<"int", word>> <<"float", word, n>>  <<"reg", name>> <<"pc">>        *)
(*   <<"back", n>> <<"fwd", n>> <<"text", parts>> <<"id", parts>>          *)
(*   <<"op1", op, x>> <<"op2", op, x, y>> <<"op3", c, x, y>>               *)
(*   <<"arr", args>> <<"empty">>                                           *)
(* Parts of text and identifiers:                                          *)
(*   <<"S", name, lowercase>>  <<"T", codes>>  <<"I", n>>                  *)
(* An argument is [n |-> expression, a |-> attribute], the attribute being *)
(* a size prefix, "imm", or a register's increment or decrement.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Lex

T(ts, p) == IF p <= Len(ts) THEN ts[p][1] ELSE "EOL"

BinPrec(op) ==
  CASE op = "||" -> 2 [] op = "&&" -> 3 [] op = "|" -> 4 [] op = "^" -> 5
    [] op = "&" -> 6 [] op \in {"==", "!="} -> 7
    [] op \in {"<", "<=", ">", ">="} -> 8 [] op \in {"<<", ">>"} -> 9
    [] op \in {"+", "-", "++", "--"} -> 10 [] op \in {"*", "/", "%"} -> 11
    [] OTHER -> 0

ExprStart == {"(", "-", "+", "--", "++", "~", "!", "INT", "FLOAT", "BACK",
              "FWD", "*", "DELIM", "ID", "INTERP"}

Fail == [n |-> <<>>, p |-> 0]
Ok(n, p) == [n |-> n, p |-> p]

Part(t) == IF t[1] = "ID" THEN <<"S", t[2], t[3]>>
           ELSE IF t[1] = "INTERP" THEN <<"I", t[2]>>
           ELSE <<"T", t[2]>>

\* First position >= p that is not one of the kinds in K
RECURSIVE RunEnd(_, _, _)
RunEnd(ts, p, K) == IF T(ts, p) \in K THEN RunEnd(ts, p + 1, K) ELSE p

Parts(ts, p, q) == TLCEval([i \in 1..(q - p) |-> Part(ts[p + i - 1])])

RECURSIVE PExpr(_, _), PTern(_, _), PBin(_, _, _), PRest(_, _, _, _), PUnary(_, _)

PUnary(ts, p) ==
  LET k == T(ts, p) IN
  CASE k \in {"-", "+", "~", "!"} ->
         LET x == PUnary(ts, p + 1) IN IF x.p = 0 THEN Fail ELSE Ok(<<"op1", k, x.n>>, x.p)
    [] k = "--" ->
         LET x == PUnary(ts, p + 1)
         IN IF x.p = 0 THEN Fail ELSE Ok(<<"op1", "-", <<"op1", "-", x.n>>>>, x.p)
    [] k = "++" ->
         LET x == PUnary(ts, p + 1)
         IN IF x.p = 0 THEN Fail ELSE Ok(<<"op1", "+", <<"op1", "+", x.n>>>>, x.p)
    [] k = "(" ->
         LET x == PExpr(ts, p + 1)
         IN IF x.p = 0 THEN Fail ELSE IF T(ts, x.p) = ")" THEN Ok(x.n, x.p + 1) ELSE Fail
    [] k = "INT" -> Ok(<<"int", ts[p][2]>>, p + 1)
    [] k = "FLOAT" -> Ok(<<"float", ts[p][2], ts[p][3]>>, p + 1)
    [] k = "BACK" -> Ok(<<"back", ts[p][2]>>, p + 1)
    [] k = "FWD" -> Ok(<<"fwd", ts[p][2]>>, p + 1)
    [] k = "*" -> Ok(<<"pc">>, p + 1)
    [] k \in {"ID", "INTERP"} ->
         LET q == RunEnd(ts, p, {"ID", "INTERP"}) IN Ok(<<"id", Parts(ts, p, q)>>, q)
    [] k = "DELIM" ->
         LET q == RunEnd(ts, p + 1, {"TEXT", "INTERP"})
         IN IF q > p + 1 /\ T(ts, q) = "DELIM"
            THEN Ok(<<"text", Parts(ts, p + 1, q)>>, q + 1) ELSE Fail
    [] OTHER -> Fail

\* Left associative: extend x with operators that bind at least as tightly as min
PRest(ts, x, p, min) ==
  LET k == T(ts, p)
      b == BinPrec(k)
  IN IF b < min \/ b = 0 THEN Ok(x, p)
     ELSE LET y == PBin(ts, p + 1, b + 1)
          IN IF y.p = 0 THEN Fail
             ELSE PRest(ts, CASE k = "++" -> <<"op2", "+", x, <<"op1", "+", y.n>>>>
                              [] k = "--" -> <<"op2", "-", x, <<"op1", "-", y.n>>>>
                              [] OTHER -> <<"op2", k, x, y.n>>, y.p, min)

PBin(ts, p, min) ==
  LET x == PUnary(ts, p) IN IF x.p = 0 THEN Fail ELSE PRest(ts, x.n, x.p, min)

PTern(ts, p) ==
  LET c == PBin(ts, p, 1) IN
  IF c.p = 0 THEN Fail
  ELSE IF T(ts, c.p) # "?" THEN c
  ELSE LET x == PTern(ts, c.p + 1)
       IN IF x.p = 0 \/ T(ts, x.p) # ":" THEN Fail
          ELSE LET y == PTern(ts, x.p + 1)
               IN IF y.p = 0 THEN Fail ELSE Ok(<<"op3", c.n, x.n, y.n>>, y.p)

PExpr(ts, p) == PTern(ts, p)

Arg(n, a) == [n |-> n, a |-> a]

\* One argument at p: [n |-> argument, p |-> position after it (0: malformed)]
RECURSIVE PArg(_, _), PArgList(_, _, _)
PArg(ts, p) ==
  LET k == T(ts, p)
      Pre(attr) == LET x == PExpr(ts, p + 1)
                   IN IF x.p = 0 THEN Fail ELSE Ok(Arg(x.n, attr), x.p)
  IN
  CASE k = "[" ->
         LET l == PArgList(ts, p + 1, <<>>)
         IN IF l.p = 0 \/ T(ts, l.p) # "]" THEN Fail
            ELSE Ok(Arg(<<"arr", l.n>>, ""), l.p + 1)
    [] k = "#" -> Pre("imm")
    [] k = "<<" -> Pre("5bit")
    [] k = "<" -> IF T(ts, p + 1) \in ExprStart THEN Pre("8bit") ELSE Ok(Arg(<<"back", 0>>, ""), p + 1)
    [] k = ">" -> IF T(ts, p + 1) \in ExprStart THEN Pre("16bit") ELSE Ok(Arg(<<"fwd", 0>>, ""), p + 1)
    [] k = "REG" ->
         LET r == <<"reg", ts[p][2]>>
             n == T(ts, p + 1)
         IN CASE n = "+" -> Ok(Arg(r, "postinc"), p + 2)
              [] n = "++" -> Ok(Arg(r, "postinc2"), p + 2)
              [] n = "-" -> Ok(Arg(r, "postdec"), p + 2)
              [] OTHER -> Ok(Arg(r, ""), p + 1)
    [] k = "-" /\ T(ts, p + 1) = "REG" -> Ok(Arg(<<"reg", ts[p + 1][2]>>, "predec"), p + 2)
    [] k = "--" /\ T(ts, p + 1) = "REG" -> Ok(Arg(<<"reg", ts[p + 1][2]>>, "predec2"), p + 2)
    [] k \in ExprStart ->
         LET x == PExpr(ts, p) IN IF x.p = 0 THEN Fail ELSE Ok(Arg(x.n, ""), x.p)
    [] OTHER -> Ok(Arg(<<"empty">>, ""), p)

\* Within brackets every argument has to be well formed
PArgList(ts, p, acc) ==
  LET x == PArg(ts, p) IN
  IF x.p = 0 THEN Fail
  ELSE IF T(ts, x.p) = "," THEN PArgList(ts, x.p + 1, Append(acc, x.n))
  ELSE Ok(Append(acc, x.n), x.p)

\* At the top level, whatever follows the last well formed argument is a comment
RECURSIVE PTop(_, _, _)
PTop(ts, p, acc) ==
  LET x == PArg(ts, p) IN
  IF x.p = 0 THEN [args |-> acc, bad |-> TRUE]
  ELSE IF T(ts, x.p) = "," THEN PTop(ts, x.p + 1, Append(acc, x.n))
  ELSE [args |-> Append(acc, x.n), bad |-> FALSE]

Unsup(ts) == \E i \in 1..Len(ts) : ts[i] = <<"UNSUP">>

NoLabel == <<>>

\* A whole line.  k is "empty", "bad" (syntax error) or "line".  drop tells
\* that an argument after the first was malformed and silently left out.
ParseLine(line, isa) ==
  LET ts == LexLine(line, isa)
      k1 == T(ts, 1)
      le == RunEnd(ts, 1, {"ID", "INTERP"})
      lab == IF k1 = "INT" THEN <<"int", ts[1][2]>>
             ELSE IF le > 1 THEN <<"id", Parts(ts, 1, le)>> ELSE NoLabel
      p1 == IF k1 = "INT" THEN 2 ELSE le
      oe == RunEnd(ts, p1 + 1, {"ID", "INTERP"})
      R(k, l, o, a, d) == [k |-> k, label |-> l, op |-> o, args |-> a, drop |-> d,
                           uns |-> Unsup(ts), s |-> line.x]
  IN IF T(ts, p1) = "EOL"
       THEN R(IF p1 = 1 THEN "empty" ELSE "line", lab, <<>>, <<>>, FALSE)
     ELSE IF T(ts, p1) # "WS" \/ oe = p1 + 1 THEN R("bad", NoLabel, <<>>, <<>>, FALSE)
     ELSE LET o == Parts(ts, p1 + 1, oe)
          IN IF T(ts, oe) = "EOL" THEN R("line", lab, o, <<>>, FALSE)
             ELSE IF T(ts, oe) # "WS" THEN R("line", lab, o, <<>>, TRUE)
             ELSE LET a == PTop(ts, oe + 1, <<>>)
                  IN R("line", lab, o, a.args, a.bad)

\* Does the instruction field contain no positional variables?
ConstOp(o) == o # <<>> /\ \A i \in 1..Len(o) : o[i][1] = "S"

(***************************************************************************)
(* A source file: the lines up to and including the first END.             *)
(***************************************************************************)
IsEnd(pl) == pl.k = "line" /\ ConstOp(pl.op) /\ Len(pl.op) = 1 /\ pl.op[1][3] = "end"

ParseFile(lines, isa) ==
  LET Next(ls, line) == IF ls # <<>> /\ IsEnd(ls[Len(ls)]) THEN ls
                        ELSE Append(ls, ParseLine(line, isa))
  IN FoldLeft(Next, <<>>, lines)
==============================================================================
