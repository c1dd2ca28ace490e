--------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* Lexical structure of a source line.  A line is a record with            *)
(*   c  its characters as codes, without the line end                      *)
(*   s  the same as a string (only ever used to cut names out of)          *)
(*   l  the same in lower case                                             *)
(* The meaning of a character depends on the field of the line it is in    *)
(* (label, instruction, arguments) and, within the arguments, on whether a *)
(* string or an operator may come next.  Of all the tokens that could      *)
(* start at a position the longest is taken.                               *)
(*                                                                         *)
(* Tokens:  <<"ID", name, lowercase name>>  <<"REG", name>>                *)
(*          <<"INT", word>>  <<"FLOAT", word, n>>   <<"INTERP", n>>        *)
(*          <<"TEXT", codes>> <<"BACK", n>> <<"FWD", n>>                   *)
(*          <<"WS">> <<"DELIM">> <<op>> ... and <<"BAD">> for characters   *)
(*          that start no token, <<"UNSUP">> for numbers out of scope.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Words

BinCh   == 48..49
OctCh   == 48..55
DigCh   == 48..57
HexCh   == (48..57) \cup (65..70) \cup (97..102)
AlphaCh == (65..90) \cup (97..122) \cup {95}
WordCh  == AlphaCh \cup DigCh \cup {46}
WsCh    == {32, 9}

RegNames6809 == {"cc", "a", "b", "dp", "x", "y", "u", "s", "pc", "d", "pcr"}
RegNames6309 == RegNames6809 \cup {"e", "f", "w", "q", "v"}

\* First position >= i whose character is not in S
InSet(c, i, S) == i <= Len(c) /\ c[i] \in S
SpanEnd(c, i, S) == IF ~InSet(c, i, S) THEN i
                    ELSE CHOOSE j \in (i + 1)..(Len(c) + 1) :
                           /\ ~InSet(c, j, S)
                           /\ \A k \in i..(j - 1) : c[k] \in S

ChAt(c, i) == IF i <= Len(c) THEN c[i] ELSE 0

DigitVal(ch) == IF ch <= 57 THEN ch - 48 ELSE IF ch <= 70 THEN ch - 55 ELSE ch - 87

RECURSIVE NumVal(_, _, _, _, _)
NumVal(c, i, j, base, acc) ==
  IF i >= j THEN acc ELSE NumVal(c, i + 1, j, base, WMulAdd(acc, base, DigitVal(c[i])))

\* Digits that are certain not to overflow a uint64_t
MaxDigits(base) == CASE base = 2 -> 63 [] base = 8 -> 21 [] base = 10 -> 19 [] OTHER -> 16

IntTok(c, i, j, base) ==
  LET k == SpanEnd(c, i, {48})   \* leading zeros
      v == NumVal(c, k, j, base, W0)
  IN IF j - k > MaxDigits(base) THEN <<"UNSUP">>
     ELSE IF WIsNeg(v) THEN <<"UNSUP">>   \* does not fit an int64_t
     ELSE <<"INT", v>>

\* Small decimal, for local labels and positional variables
RECURSIVE DecVal(_, _, _, _)
DecVal(c, i, j, acc) == IF i >= j THEN acc ELSE DecVal(c, i + 1, j, acc * 10 + (c[i] - 48))

RECURSIVE DecWord(_, _, _, _)
DecWord(c, i, j, acc) == IF i >= j THEN acc ELSE DecWord(c, i + 1, j, WMulAdd(acc, 10, c[i] - 48))

\* ddd.ddd : word / 10^number, of not too many digits
RECURSIVE TrimEnd(_, _, _)
TrimEnd(c, i, j) == IF j > i /\ c[j - 1] = 48 THEN TrimEnd(c, i, j - 1) ELSE j   \* trailing zeros

FloatTok(c, i, dot, j0) ==
  LET j == TrimEnd(c, dot + 1, j0)
      k == IF dot > i THEN SpanEnd(c, i, {48}) ELSE i
  IN IF (dot - k) + (j - dot - 1) > 18 \/ j - dot - 1 > 17 THEN <<"UNSUP">>
     ELSE <<"FLOAT", DecWord(c, dot + 1, j, DecWord(c, i, dot, W0)), j - dot - 1>>

\* A token and where the next one starts, and the state to continue in
Tok(t, j, st) == [t |-> t, j |-> j, st |-> st]

WordTok(line, i, j, isa) ==
  LET lc == SubSeq(line.l, i, j - 1)
  IN IF lc \in (IF isa = 6309 THEN RegNames6309 ELSE RegNames6809)
     THEN <<"REG", lc>> ELSE <<"ID", SubSeq(line.s, i, j - 1), lc>>

PlainWordTok(line, i, j) == <<"ID", SubSeq(line.s, i, j - 1), SubSeq(line.l, i, j - 1)>>

\* \n  \{nn}  &{nn}  (and &n where amp is true): end position, or 0
InterpEnd(c, i, amp) ==
  IF ChAt(c, i) \notin {92, 38} THEN 0
  ELSE IF InSet(c, i + 1, DigCh) /\ (c[i] = 92 \/ amp) THEN i + 2
  ELSE IF ChAt(c, i + 1) = 123
       THEN LET k == SpanEnd(c, i + 2, DigCh)
            IN IF k > i + 2 /\ ChAt(c, k) = 125 THEN k + 1 ELSE 0
  ELSE 0

InterpTok(c, i, j) ==
  IF c[i + 1] = 123
  THEN (IF j - i > 9 THEN <<"UNSUP">> ELSE <<"INTERP", DecVal(c, i + 2, j - 1, 0)>>)
  ELSE <<"INTERP", c[i + 1] - 48>>

\* Numbers that may start at i, common to labels and arguments, excluding
\* the %binary form.  <<>> if none does.
Num(c, i) ==
  LET ch == c[i] IN
  CASE ch \in DigCh ->
         LET d == SpanEnd(c, i, DigCh)
             n == ChAt(c, i + 1)
         IN IF ch = 48 /\ n = 98 /\ InSet(c, i + 2, BinCh)
              THEN LET k == SpanEnd(c, i + 2, BinCh) IN <<IntTok(c, i + 2, k, 2), k>>
            ELSE IF ch = 48 /\ n = 120 /\ InSet(c, i + 2, HexCh)
              THEN LET k == SpanEnd(c, i + 2, HexCh) IN <<IntTok(c, i + 2, k, 16), k>>
            ELSE IF ch = 48 /\ d > i + 1 /\ SpanEnd(c, i, OctCh) = d
              THEN <<IntTok(c, i + 1, d, 8), d>>
            ELSE <<IntTok(c, i, d, 10), d>>
    [] ch = 64 /\ InSet(c, i + 1, OctCh) ->
         LET k == SpanEnd(c, i + 1, OctCh) IN <<IntTok(c, i + 1, k, 8), k>>
    [] ch = 36 /\ InSet(c, i + 1, HexCh) ->
         LET k == SpanEnd(c, i + 1, HexCh) IN <<IntTok(c, i + 1, k, 16), k>>
    [] ch = 39 /\ i + 1 <= Len(c) ->
         LET v == WOfNat(c[i + 1])
         IN <<<<"INT", v>>, IF ChAt(c, i + 2) = 39 THEN i + 3 ELSE i + 2>>
    [] OTHER -> <<>>

\* %binary
BinNum(c, i) ==
  IF c[i] = 37 /\ InSet(c, i + 1, BinCh)
  THEN LET k == SpanEnd(c, i + 1, BinCh) IN <<IntTok(c, i + 1, k, 2), k>>
  ELSE <<>>

OpName == TLCEval([ch \in 33..126 |->
  CASE ch = 33 -> "!" [] ch = 35 -> "#" [] ch = 37 -> "%" [] ch = 38 -> "&"
    [] ch = 40 -> "(" [] ch = 41 -> ")" [] ch = 42 -> "*" [] ch = 43 -> "+"
    [] ch = 44 -> "," [] ch = 45 -> "-" [] ch = 47 -> "/" [] ch = 58 -> ":"
    [] ch = 60 -> "<" [] ch = 62 -> ">" [] ch = 63 -> "?" [] ch = 91 -> "["
    [] ch = 93 -> "]" [] ch = 94 -> "^" [] ch = 124 -> "|" [] ch = 126 -> "~"
    [] OTHER -> "BAD"])

Op2(a, b) ==
  CASE a = 60 /\ b = 60 -> "<<" [] a = 62 /\ b = 62 -> ">>"
    [] a = 60 /\ b = 61 -> "<=" [] a = 62 /\ b = 61 -> ">="
    [] a = 61 /\ b = 61 -> "==" [] a = 33 /\ b = 61 -> "!="
    [] a = 38 /\ b = 38 -> "&&" [] a = 124 /\ b = 124 -> "||"
    [] OTHER -> ""

\* Label field
LexInitial(line, i, isa) ==
  LET c == line.c
      ch == c[i]
      e == SpanEnd(c, i, WsCh)
      num == Num(c, i)
      bin == BinNum(c, i)
      ie == InterpEnd(c, i, TRUE)
  IN IF ChAt(c, e) \in {59, 42} \/ e > Len(c) THEN Tok(<<"END">>, Len(c) + 1, "initial")
     ELSE IF e > i THEN Tok(<<"WS">>, e, "opcode")
     ELSE IF ch = 13 THEN Tok(<<"SKIP">>, i + 1, "initial")
     ELSE IF num # <<>> THEN Tok(num[1], num[2], "initial")
     ELSE IF bin # <<>> THEN Tok(bin[1], bin[2], "initial")
     ELSE IF ch = 33 THEN Tok(<<"INT", W0>>, i + 1, "initial")
     ELSE IF ch \in AlphaCh
          THEN LET j == SpanEnd(c, i, WordCh) IN Tok(WordTok(line, i, j, isa), j, "initial")
     ELSE IF ie > 0 THEN Tok(InterpTok(c, i, ie), ie, "initial")
     ELSE Tok(<<"BAD">>, i + 1, "initial")

\* Instruction field
LexOpcode(line, i, isa) ==
  LET c == line.c
      ch == c[i]
      e == SpanEnd(c, i, WsCh)
      ie == InterpEnd(c, i, TRUE)
  IN IF ChAt(c, e) = 59 \/ e > Len(c) THEN Tok(<<"END">>, Len(c) + 1, "initial")
     ELSE IF e > i THEN Tok(<<"WS">>, e, "arg")
     ELSE IF ch = 13 THEN Tok(<<"SKIP">>, i + 1, "opcode")
     ELSE IF ch \in AlphaCh
          THEN LET j == SpanEnd(c, i, WordCh) IN Tok(WordTok(line, i, j, isa), j, "opcode")
     ELSE IF ie > 0 THEN Tok(InterpTok(c, i, ie), ie, "opcode")
     ELSE Tok(<<"BAD">>, i + 1, "initial")

\* Arguments.  States: arg (an operand may start: a delimiter starts a string
\* and % a binary number), argnostr (after an operand), argnostrnum (after a
\* positional variable: letters and digits that follow are pasted to it).
LexArgNum(line, i, isa, st) ==
  LET c == line.c
      d == SpanEnd(c, i, DigCh)
      fe == IF ChAt(c, d) = 46 THEN SpanEnd(c, d + 1, DigCh) ELSE 0
      num == Num(c, i)
      k == IF num = <<>> THEN 0 ELSE num[2]
      lb == ChAt(c, d) \in {98, 66} /\ d > i
      lf == ChAt(c, d) \in {102, 70} /\ d > i
  IN \* floating point: longest unless it is just a full stop
     IF fe > 0 /\ fe > d + 1 - (IF d > i THEN 1 ELSE 0) /\ fe > k
       THEN Tok(FloatTok(c, i, d, fe), fe, "argnostr")
     ELSE IF (lb \/ lf) /\ d + 1 > k
       THEN Tok(IF d - i > 8 THEN <<"UNSUP">>
                ELSE <<IF lb THEN "BACK" ELSE "FWD", DecVal(c, i, d, 0)>>, d + 1, "argnostr")
     ELSE IF k > 0 THEN Tok(num[1], k, "argnostr")
     ELSE Tok(<<"BAD">>, i + 1, st)

LexArg(line, i, isa, st) ==
  LET c == line.c
      ch == c[i]
      e == SpanEnd(c, i, WsCh)
      ie == InterpEnd(c, i, FALSE)
      op2 == Op2(ch, ChAt(c, i + 1))
  IN IF ChAt(c, e) = 59 \/ e > Len(c) THEN Tok(<<"END">>, Len(c) + 1, "initial")
     ELSE IF e > i THEN Tok(<<"SKIP">>, e, st)
     ELSE IF ch = 13 THEN Tok(<<"SKIP">>, i + 1, st)
     ELSE IF st = "argnostrnum" /\ ch \in WordCh
       THEN LET j == SpanEnd(c, i, WordCh) IN Tok(PlainWordTok(line, i, j), j, st)
     ELSE IF ch \in AlphaCh
       THEN LET j == SpanEnd(c, i, WordCh) IN Tok(WordTok(line, i, j, isa), j, "argnostr")
     ELSE IF ch \in DigCh \/ ch \in {46, 64, 36, 39} THEN LexArgNum(line, i, isa, st)
     ELSE IF ie > 0 THEN Tok(InterpTok(c, i, ie), ie, "argnostrnum")
     ELSE IF st = "arg" /\ ch \in {47, 34}
       THEN Tok(<<"DELIM">>, i + 1, IF ch = 47 THEN "str/" ELSE "str\"")
     ELSE IF st = "arg" /\ BinNum(c, i) # <<>>
       THEN LET b == BinNum(c, i) IN Tok(b[1], b[2], "argnostr")
     ELSE IF ch = 47 THEN Tok(<<"/">>, i + 1, "argnostr")
     ELSE IF ch = 43 /\ ChAt(c, i + 1) = 43 THEN Tok(<<"++">>, i + 2, "argnostr")
     ELSE IF ch = 45 /\ ChAt(c, i + 1) = 45 THEN Tok(<<"--">>, i + 2, "argnostr")
     ELSE IF op2 # "" THEN Tok(<<op2>>, i + 2, "arg")
     ELSE IF ch \in {41, 93} THEN Tok(<<OpName[ch]>>, i + 1, "argnostr")
     ELSE IF ch \in 33..126 /\ OpName[ch] # "BAD" THEN Tok(<<OpName[ch]>>, i + 1, "arg")
     ELSE Tok(<<"BAD">>, i + 1, st)

\* Within a string
StrPlain == (1..255) \ {10, 13, 34, 38, 47, 92}
LexStr(line, i, st) ==
  LET c == line.c
      ch == c[i]
      ie == InterpEnd(c, i, TRUE)
      delim == IF st = "str/" THEN 47 ELSE 34
  IN IF ch = delim THEN Tok(<<"DELIM">>, i + 1, "argnostr")
     ELSE IF ch \in {34, 47} THEN Tok(<<"TEXT", <<ch>>>>, i + 1, st)
     ELSE IF ie > 0 THEN Tok(InterpTok(c, i, ie), ie, st)
     ELSE IF ch = 38 THEN Tok(<<"TEXT", <<38>>>>, IF ChAt(c, i + 1) = 38 THEN i + 2 ELSE i + 1, st)
     ELSE IF ch = 92 /\ i < Len(c)
       THEN Tok(<<"TEXT", <<CASE c[i + 1] = 110 -> 10 [] c[i + 1] = 114 -> 13 [] OTHER -> c[i + 1]>>>>, i + 2, st)
     ELSE IF ch = 92 THEN Tok(<<"UNSUP">>, i + 1, st)
     ELSE IF ch = 13 THEN Tok(<<"SKIP">>, i + 1, st)
     ELSE LET j == SpanEnd(c, i, StrPlain) IN Tok(<<"TEXT", SubSeq(c, i, j - 1)>>, j, st)

\* The tokens of a line: where a token starts, the text up to the next is taken
LexLine(line, isa) ==
  LET Start(i, st) == CASE st = "initial" -> LexInitial(line, i, isa)
                        [] st = "opcode"  -> LexOpcode(line, i, isa)
                        [] st \in {"str/", "str\""} -> LexStr(line, i, st)
                        [] OTHER -> LexArg(line, i, isa, st)
      Step(s, i) ==
        IF i < s.j THEN s
        ELSE LET t == Start(i, s.st)
             IN [ts |-> IF t.t[1] \in {"SKIP", "END"} THEN s.ts ELSE Append(s.ts, t.t), j |-> t.j, st |-> t.st]
  IN FoldLeft(Step, [ts |-> <<>>, j |-> 1, st |-> "initial"], [i \in 1..Len(line.c) |-> i]).ts
==============================================================================
