------------------------------- MODULE CmdLine -------------------------------
(***************************************************************************)
(* The command line.  An argument is a record with its characters as codes *)
(* (c) and as a string (s).  Options may be abbreviated, combined and      *)
(* mixed with file names the way GNU getopt_long allows.                   *)
(***************************************************************************)
EXTENDS Formats

ShortPlain == {66, 68, 67, 83, 72, 56, 57, 51, 113, 118}       \* BDCSH893qv
ShortArg == {101, 100, 80, 111, 108, 69, 115}                  \* e d P o l E s

ShortName(ch) ==
  CASE ch = 66 -> "bin" [] ch = 68 -> "dragondos" [] ch = 67 -> "coco" [] ch = 83 -> "srec"
    [] ch = 72 -> "hex" [] ch \in {56, 57} -> "6809" [] ch = 51 -> "6309" [] ch = 113 -> "quiet"
    [] ch = 118 -> "verbose" [] ch = 101 -> "exec" [] ch = 100 -> "define" [] ch = 80 -> "max-passes"
    [] ch = 111 -> "output" [] ch = 108 -> "listing" [] ch = 69 -> "exports" [] OTHER -> "symbols"

LongArg == {"exec", "define", "setdp", "max-passes", "output", "listing", "exports", "symbols"}
LongPlain == {"bin", "dragondos", "coco", "srec", "hex", "6809", "6309", "quiet", "verbose",
              "help", "version"}
LongNames == LongArg \cup LongPlain

\* Names a possibly abbreviated option could stand for
Candidates(s) ==
  IF s \in LongNames THEN {s}
  ELSE {n \in LongNames : Len(s) <= Len(n) /\ SubSeq(n, 1, Len(s)) = s}

Defaults == [fmt |-> "B", isa |-> 6809, setdp |-> -1, maxp |-> 12, defs |-> <<>>, exec |-> <<>>,
             output |-> "", listing |-> "", exports |-> "", symbols |-> "", verb |-> 0,
             files |-> <<>>,
             st |-> "go"]   \* "go", or how it ended: "fatal" "usage" "info" "unsupported"

\* Position of a character, 0 if there is none
RECURSIVE Find(_, _, _)
Find(c, ch, i) == IF i > Len(c) THEN 0 ELSE IF c[i] = ch THEN i ELSE Find(c, ch, i + 1)

Digits(c, i, base, S) ==
  IF i > Len(c) \/ Len(c) - i >= 15 \/ SpanEnd(c, i, S) <= Len(c) THEN [k |-> "unsupported", w |-> W0]
  ELSE [k |-> "int", w |-> NumVal(c, i, Len(c) + 1, base, W0)]

\* Numbers given as options: "int", "none" or (trailing garbage) "unsupported"
SimpleInt(c) ==
  CASE ChAt(c, 1) = 36 -> Digits(c, 2, 16, HexCh)
    [] ChAt(c, 1) = 64 -> Digits(c, 2, 8, OctCh)
    [] ChAt(c, 1) = 37 -> Digits(c, 2, 2, BinCh)
    [] ChAt(c, 1) = 48 /\ ChAt(c, 2) = 120 -> Digits(c, 3, 16, HexCh)
    [] ChAt(c, 1) = 48 /\ ChAt(c, 2) = 98 -> Digits(c, 3, 2, BinCh)
    [] ChAt(c, 1) \in DigCh -> Digits(c, 1, 10, DigCh)
    [] OTHER -> [k |-> "none", w |-> W0]

\* The value of digits, up to a limit
RECURSIVE CapVal(_, _, _, _)
CapVal(c, i, base, acc) ==
  IF i > Len(c) THEN acc
  ELSE LET v == acc * base + DigitVal(c[i]) IN CapVal(c, i + 1, base, IF v > 9999 THEN 9999 ELSE v)

\* A pass limit is a number as in C
PassLimit(c) ==
  LET sp == SpanEnd(c, 1, {32} \cup 9..13)
      neg == ChAt(c, sp) = 45
      i == IF ChAt(c, sp) \in {43, 45} THEN sp + 1 ELSE sp
      hex == ChAt(c, i) = 48 /\ ChAt(c, i + 1) \in {88, 120} /\ ChAt(c, i + 2) \in HexCh
      oct == ~hex /\ ChAt(c, i) = 48
      from == IF hex THEN i + 2 ELSE i
      S == IF hex THEN HexCh ELSE IF oct THEN OctCh ELSE DigCh
      base == IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10
      to == SpanEnd(c, from, S)
  IN CASE to = from -> [k |-> "fatal", v |-> 0]                    \* no number at all
       [] neg -> [k |-> "fatal", v |-> 0]
       [] OTHER -> LET v == CapVal(SubSeq(c, 1, to - 1), from, base, 0)
                   IN [k |-> CASE v \notin 2..255 -> "fatal"
                               [] to <= Len(c) -> "unsupported"          \* text after it
                               [] OTHER -> "int",
                       v |-> v]

Apply(o, name, a) ==
  LET WithNumber(c, Do(_)) == LET r == SimpleInt(c)
                       IN CASE r.k = "int" -> Do(r.w)
                            [] r.k = "none" -> [o EXCEPT !.st = "fatal"]
                            [] OTHER -> [o EXCEPT !.st = "unsupported"]
  IN
  CASE name = "bin" -> [o EXCEPT !.fmt = "B"]
    [] name = "dragondos" -> [o EXCEPT !.fmt = "D"]
    [] name = "coco" -> [o EXCEPT !.fmt = "C"]
    [] name = "srec" -> [o EXCEPT !.fmt = "S"]
    [] name = "hex" -> [o EXCEPT !.fmt = "H"]
    [] name = "6809" -> [o EXCEPT !.isa = 6809]
    [] name = "6309" -> [o EXCEPT !.isa = 6309]
    [] name = "quiet" -> [o EXCEPT !.verb = -1]
    [] name = "verbose" -> [o EXCEPT !.verb = 1]
    [] name \in {"help", "version"} -> [o EXCEPT !.st = "info"]
    [] name = "exec" -> [o EXCEPT !.exec = a.c]
    [] name = "output" -> [o EXCEPT !.output = a.s]
    [] name = "listing" -> [o EXCEPT !.listing = a.s]
    [] name = "exports" -> [o EXCEPT !.exports = a.s]
    [] name = "symbols" -> [o EXCEPT !.symbols = a.s]
    [] name = "max-passes" ->
         LET l == PassLimit(a.c)
         IN IF l.k = "int" THEN [o EXCEPT !.maxp = l.v] ELSE [o EXCEPT !.st = l.k]
    [] name = "setdp" ->
         LET neg == ChAt(a.c, 1) = 45
         IN WithNumber(IF neg THEN Tail(a.c) ELSE a.c,
                LAMBDA w : [o EXCEPT !.setdp = IF neg THEN -1 ELSE w[1] % 256])
    [] OTHER -> \* define
         LET eq == Find(a.c, 61, 1)
             nm == IF eq = 0 THEN a.s ELSE SubSeq(a.s, 1, eq - 1)
             Def(w) == [o EXCEPT !.defs = Append(@, <<nm, w>>)]
         IN IF eq = 0 THEN Def(W1) ELSE WithNumber(SubSeq(a.c, eq + 1, Len(a.c)), Def)

Cut(a, i) == [c |-> SubSeq(a.c, i, Len(a.c)), s |-> SubSeq(a.s, i, Len(a.s))]

RECURSIVE ParseArgs(_, _, _), ParseCluster(_, _, _, _)
\* Short options from position j of argument i
ParseCluster(o, argv, i, j) ==
  LET a == argv[i] IN
  IF o.st # "go" THEN o
  ELSE IF j > Len(a.c) THEN ParseArgs(o, argv, i + 1)
  ELSE IF a.c[j] \in ShortPlain THEN ParseCluster(Apply(o, ShortName(a.c[j]), a), argv, i, j + 1)
  ELSE IF a.c[j] \notin ShortArg THEN [o EXCEPT !.st = "usage"]
  ELSE IF j < Len(a.c) THEN ParseArgs(Apply(o, ShortName(a.c[j]), Cut(a, j + 1)), argv, i + 1)
  ELSE IF i < Len(argv) THEN ParseArgs(Apply(o, ShortName(a.c[j]), argv[i + 1]), argv, i + 2)
  ELSE [o EXCEPT !.st = "usage"]

ParseArgs(o, argv, i) ==
  IF o.st # "go" \/ i > Len(argv) THEN o
  ELSE LET a == argv[i]
           eq == Find(a.c, 61, 1)
           nm == SubSeq(a.s, 3, IF eq = 0 THEN Len(a.s) ELSE eq - 1)
           cand == Candidates(nm)
           name == CHOOSE x \in cand : TRUE
       IN IF Len(a.c) < 2 \/ a.c[1] # 45
            THEN ParseArgs([o EXCEPT !.files = Append(@, a.s)], argv, i + 1)
          ELSE IF a.c[2] # 45 THEN ParseCluster(o, argv, i, 2)
          ELSE IF Len(a.c) = 2
            THEN [o EXCEPT !.files = @ \o [k \in 1..(Len(argv) - i) |-> argv[i + k].s]]
          ELSE IF Cardinality(cand) # 1 THEN [o EXCEPT !.st = "usage"]
          ELSE IF name \in LongPlain
            THEN (IF eq > 0 THEN [o EXCEPT !.st = "usage"] ELSE ParseArgs(Apply(o, name, a), argv, i + 1))
          ELSE IF eq > 0 THEN ParseArgs(Apply(o, name, Cut(a, eq + 1)), argv, i + 1)
          ELSE IF i < Len(argv) THEN ParseArgs(Apply(o, name, argv[i + 1]), argv, i + 2)
          ELSE [o EXCEPT !.st = "usage"]

CommandLine(argv) ==
  LET o == ParseArgs(Defaults, argv, 1)
  IN IF o.st = "go" /\ o.files = <<>> THEN [o EXCEPT !.st = "fatal"] ELSE o
==============================================================================
