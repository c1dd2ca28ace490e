------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The assembler as a state machine.  A state is a record with the fields  *)
(*                                                                         *)
(*   ph     phase: "parse" "pass" "run" "done"                             *)
(*   opt    options: isa, setdp, maxp (passes), defs (symbols defined on   *)
(*          the command line, <<name, word>> each), files (names of the    *)
(*          source files in order)                                         *)
(*   fs     parsed source files: name -> [ls: lines, bad: line numbers]    *)
(*   bins   binary files: name -> bytes                                    *)
(*   pass   number of the pass, from 0                                     *)
(*   main   how many of opt.files have been started in this pass           *)
(*   fr     stack of files and macros being assembled, each                *)
(*          [nm, ls, i: lines started, cond: states of the open IFs,       *)
(*           ex: which of these started excluding lines (0 if none),       *)
(*           res: section to return to or "", pop: was it a macro call?]   *)
(*   def    macro definition in progress: [lev: nesting, nm: name, n: lines*)
(*          recorded].  nm is "" if the lines are not being recorded.      *)
(*   ip     stack of arguments of macro calls                              *)
(*   secs   sections: name -> [pc, put, dp, line, pass, lpc, lput, loc]    *)
(*   cur    name of the current section                                    *)
(*   syms   symbols: name -> [v, pass, chg, last: value at the end of the  *)
(*          previous pass]                                                 *)
(*   zero   undefined symbols that conditions took for zero in this pass   *)
(*   macs   macros: name -> [ls, pass]                                     *)
(*   exp    exported names                                                 *)
(*   known  files that have been read                                      *)
(*   errs   errors of this pass: {<<severity, file, line>>}                *)
(*   em     data generated in this pass: [s: section, pc, put, b: bytes]   *)
(*   lst    listing of this pass: [a: address or -1, b: bytes, s: text]    *)
(*   syms0  symbols and local labels as they were when the pass started    *)
(*   tags   kinds of transitions taken                                     *)
(*   uns    has the behaviour left the domain of this specification?       *)
(*   n      number of transitions                                          *)
(***************************************************************************)
EXTENDS Isa

MaxDepth == 8
CodeSection == "CODE"

Put(f, k, v) == (k :> v) @@ f

(***************************************************************************)
(* Errors                                                                  *)
(***************************************************************************)
Top(m) == m.fr[Len(m.fr)]
Frame(m, f) == [m EXCEPT !.fr[Len(m.fr)] = f]

\* Where errors are reported
Loc(m) == IF m.def.nm # "" THEN <<m.def.nm, m.def.n>>
          ELSE IF m.fr = <<>> THEN <<"", 0>>
          ELSE <<Top(m).nm, Top(m).i>>

ErrAt(m, sev, loc) == [m EXCEPT !.errs = @ \cup {<<sev, loc[1], loc[2]>>}]
Err(m, sev) == ErrAt(m, sev, Loc(m))
Errs(m, sevs) == IF sevs = {} THEN m
                 ELSE [m EXCEPT !.errs = @ \cup {<<s, Loc(m)[1], Loc(m)[2]>> : s \in sevs}]
OutOfDomain(m) == [m EXCEPT !.uns = TRUE]

\* What a set of errors amounts to
Sevs(errs) == {e[1] : e \in errs}
Level(errs) ==
  IF errs = {} THEN 0
  ELSE LET x == Max(Sevs(errs))
       IN IF x = OutOfRange /\ Inconsistent \in Sevs(errs) THEN Inconsistent ELSE x

Tag(m, t) == [m EXCEPT !.tags = @ \cup {t}]

(***************************************************************************)
(* Symbols                                                                 *)
(***************************************************************************)
\* Defining a symbol.  One that is not changeable may only be defined once in
\* a pass, and has to have the same value in every pass.  That it was undefined
\* before matters unless it is the first pass, in which using it is an error
\* except in a condition.
Matters(m, name, pass) == pass > 0 \/ name \in m.zero
SymSet(m, name, v, chg, pass) ==
  LET known == name \in DOMAIN m.syms
      old == m.syms[name]
      last == IF ~known THEN Undef ELSE IF old.pass = pass THEN old.last ELSE old.v
      entry == [v |-> v, pass |-> pass, chg |-> chg, last |-> last]
  IN IF known /\ ~chg /\ old.pass = pass THEN Err(m, Syntax)
     ELSE LET unstable == IF known THEN ~ValEq(old.v, v) ELSE Matters(m, name, pass)
              m2 == [m EXCEPT !.syms = Put(@, name, entry)]
          IN IF unstable /\ ~chg THEN Err(m2, Inconsistent) ELSE m2

LocalSet(m, n, v) ==
  LET sec == m.secs[m.cur]
      key == <<n, sec.line>>
      unstable == IF key \in DOMAIN sec.loc THEN ~ValEq(sec.loc[key].v, v) ELSE m.pass > 0
      m2 == [m EXCEPT !.secs[m.cur].loc = Put(@, key, [v |-> v, pass |-> m.pass])]
  IN IF unstable THEN Err(m2, Inconsistent) ELSE m2

\* lab is <<>>, <<"local", n>> or <<"name", name>>
LabelSet(m, lab, v, chg) ==
  CASE lab = <<>> -> m
    [] lab[1] = "local" -> LocalSet(m, lab[2], v)
    [] OTHER -> SymSet(m, lab[2], v, chg, m.pass)

(***************************************************************************)
(* Sections                                                                *)
(***************************************************************************)
NewSection == [pc |-> 0, put |-> 0, dp |-> -1, line |-> 0, pass |-> -1,
               lpc |-> 0, lput |-> 0, loc |-> <<>>]

\* The first time a section is selected in a pass it follows what the section
\* selected before it ended with in the previous pass.
SectionSet(m, name) ==
  LET sec == IF name \in DOMAIN m.secs THEN m.secs[name] ELSE NewSection
      old == m.secs[m.cur]
      follow == m.cur # "" /\ old.pass = m.pass
      s2 == IF sec.pass = m.pass THEN sec
            ELSE [sec EXCEPT !.pc = IF follow THEN old.lpc ELSE 0,
                             !.put = IF follow THEN old.lput ELSE 0,
                             !.dp = m.opt.setdp, !.line = 0, !.pass = m.pass]
  IN [m EXCEPT !.secs = Put(@, name, s2), !.cur = name]

Sec(m) == m.secs[m.cur]

\* Generating bytes
Emit(m, b) ==
  IF b = <<>> THEN m
  ELSE LET s == Sec(m)
           m2 == [m EXCEPT !.em = Append(@, [s |-> m.cur, pc |-> s.pc, put |-> s.put, b |-> b]),
                           !.secs[m.cur].pc = @ + Len(b),
                           !.secs[m.cur].put = @ + Len(b)]
       IN Errs(m2, IF s.pc < 0 \/ s.pc + Len(b) > 65536 THEN {OutOfRange} ELSE {})

Skip(m, n) == [m EXCEPT !.secs[m.cur].pc = @ + n, !.secs[m.cur].put = @ + n]

\* The bytes generated since there were n pieces of data
RECURSIVE Since(_, _)
Since(m, n) == IF n >= Len(m.em) THEN <<>> ELSE m.em[n + 1].b \o Since(m, n + 1)

List(m, a, b, pl) == [m EXCEPT !.lst = Append(@, [a |-> a, b |-> b, s |-> pl.s])]
Listed(m, pl) == List(m, -1, <<>>, pl)
ListedPc(m, pc, pl) == List(m, pc % 65536, <<>>, pl)

(***************************************************************************)
(* Arguments                                                               *)
(***************************************************************************)
Ctx(m, zero) ==
  LET s == Sec(m)
  IN [pc |-> s.pc, dp |-> s.dp, isa |-> m.opt.isa, line |-> s.line, locals |-> s.loc,
      syms |-> m.syms, interp |-> m.ip, zero |-> zero]

\* An integer argument: [w, es, uns].  Undefined ones keep the default.
IntArg(args, i, dflt) ==
  IF i > Len(args) THEN [w |-> dflt, es |-> {}, uns |-> FALSE]
  ELSE LET v == args[i]
           r == ToInt(v)
       IN CASE v.t = "undef" -> [w |-> dflt, es |-> {}, uns |-> FALSE]
            [] v.t = "empty" -> [w |-> W0, es |-> {}, uns |-> FALSE]
            [] v.t \in {"reg", "arr"} -> [w |-> dflt, es |-> {Syntax}, uns |-> FALSE]
            [] r.uns -> [w |-> dflt, es |-> {}, uns |-> TRUE]
            [] OTHER -> [w |-> r.v.v, es |-> {}, uns |-> FALSE]

ArgCount(m, args, lo, hi) == Len(args) >= lo /\ Len(args) <= hi
Many == 1000000

\* A constant 8-bit opcode etc: the name of the instruction, in both spellings
OpName2(m, parts) == Name(Ctx(m, FALSE), parts, 1, "", "")

(***************************************************************************)
(* Data                                                                    *)
(***************************************************************************)
VdgCode(ch, inv) ==
  LET Flip(x) == IF inv THEN x ^^ 64 ELSE x
  IN CASE ch < 32 -> Flip(ch) [] ch < 64 -> Flip(ch + 64) [] ch < 96 -> Flip(ch)
       [] ch = 96 -> Flip(32) [] ch < 128 -> Flip(ch - 96) [] OTHER -> ch

OrTop(b) == IF b >= 128 THEN b ELSE b + 128

\* The bytes of one argument of FCB and the like: [b, es, uns]
ByteArg(op, v) ==
  LET top(b) == IF op = "fcs" THEN OrTop(b) ELSE b
      r == ToInt(v)
      R(b) == [b |-> b, es |-> {}, uns |-> FALSE]
  IN CASE v.t \in {"undef", "empty"} -> R(<<0>>)
       [] v.t \in {"int", "float"} ->
            IF r.uns THEN [b |-> <<0>>, es |-> {}, uns |-> TRUE] ELSE R(<<top(r.v.v[1] % 256)>>)
       [] v.t = "str" ->
            R(TLCEval([i \in 1..Len(v.v) |->
                LET ch == IF i = Len(v.v) THEN top(v.v[i]) ELSE v.v[i]
                IN CASE op = "fcv" -> VdgCode(ch, FALSE)
                     [] op = "fci" -> VdgCode(ch, TRUE)
                     [] OTHER -> ch]))
       [] OTHER -> [b |-> <<>>, es |-> {Syntax}, uns |-> FALSE]

RECURSIVE EmitBytesArgs(_, _, _, _)
EmitBytesArgs(m, op, args, i) ==
  IF i > Len(args) THEN m
  ELSE LET r == ByteArg(op, args[i])
           m2 == Errs(Emit(m, r.b), r.es)
       IN EmitBytesArgs(IF r.uns THEN OutOfDomain(m2) ELSE m2, op, args, i + 1)

RECURSIVE EmitWords(_, _, _, _)
EmitWords(m, wide, args, i) ==
  IF i > Len(args) THEN m
  ELSE LET r == IntArg(args, i, W0)
           m2 == Emit(Errs(m, r.es), IF wide THEN WBytes4(r.w) ELSE WBytes2(r.w))
       IN EmitWords(IF r.uns THEN OutOfDomain(m2) ELSE m2, wide, args, i + 1)

\* n copies of the low byte of w, if n is a possible number of bytes
Fill(m, n, w) ==
  IF ~WSmall(n) THEN Err(m, OutOfRange)
  ELSE IF WInt(n) < 0 \/ WInt(n) > 65536 THEN Err(m, OutOfRange)
  ELSE Emit(m, TLCEval([i \in 1..WInt(n) |-> w[1] % 256]))

SkipCount(m, n) ==
  IF ~WSmall(n) THEN Err(m, OutOfRange)
  ELSE IF WInt(n) < 0 \/ WInt(n) > 65536 THEN Err(m, OutOfRange)
  ELSE Skip(m, WInt(n))

\* Two integer arguments and what to do with them
With2(m, args, Do(_, _, _)) ==
  LET x == IntArg(args, 1, W0)
      y == IntArg(args, 2, W0)
      m2 == Errs(m, x.es \cup y.es)
  IN IF x.uns \/ y.uns THEN OutOfDomain(m2) ELSE Do(m2, x.w, y.w)

\* To the next multiple of n
Align(m, n, fill, hasfill) ==
  LET pc == Sec(m).pc
      a == WInt(n)
      rem == IF pc >= 0 THEN pc % a ELSE -((-pc) % a)
      k == (a - rem) % a
  IN IF WIsNeg(n) \/ n = W0 THEN Err(m, OutOfRange)
     ELSE IF ~WSmall(n) THEN OutOfDomain(m)
     ELSE IF hasfill THEN Fill(m, WOfNat(k), fill) ELSE SkipCount(m, WOfNat(k))

DataOps == {"fcb", "fcc", "fcn", "fcv", "fci", "fcs", "fdb", "fqb", "rzb", "fzb", "zmb",
            "bsz", "fill", "rmb", "align", "includebin"}

DataOp(m, op, args) ==
  LET Bad2 == Err(m, Syntax)
      n == Len(args)
  IN
  CASE op \in {"fcb", "fcc", "fcv", "fci", "fcs"} ->
         IF n < 1 THEN Bad2 ELSE EmitBytesArgs(m, op, args, 1)
    [] op = "fcn" -> IF n < 1 THEN Bad2 ELSE Emit(EmitBytesArgs(m, op, args, 1), <<0>>)
    [] op = "fdb" -> IF n < 1 THEN Bad2 ELSE EmitWords(m, FALSE, args, 1)
    [] op = "fqb" -> IF n < 1 THEN Bad2 ELSE EmitWords(m, TRUE, args, 1)
    [] op \in {"rzb", "fzb", "zmb", "bsz"} ->
         IF n \notin 1..2 THEN Bad2
         ELSE With2(m, args, LAMBDA q, x, y : Fill(q, x, y))
    [] op = "fill" ->
         IF n # 2 THEN Bad2 ELSE With2(m, args, LAMBDA q, x, y : Fill(q, y, x))
    [] op = "rmb" ->
         IF n # 1 THEN Bad2 ELSE With2(m, args, LAMBDA q, x, y : SkipCount(q, x))
    [] op = "align" ->
         IF n \notin 1..2 THEN Bad2
         ELSE With2(m, args, LAMBDA q, x, y : Align(q, x, y, n = 2))
    [] OTHER -> \* includebin
         IF n # 1 THEN Bad2
         ELSE IF args[1].t # "str" THEN Bad2
         ELSE IF \E i \in 1..Len(args[1].v) : args[1].v[i] \notin 32..126 THEN OutOfDomain(m)
         ELSE LET f == CodesStr(args[1].v, 1)
              IN IF f \in DOMAIN m.bins THEN Emit(m, m.bins[f]) ELSE Err(m, Fatal)

(***************************************************************************)
(* Source files                                                            *)
(***************************************************************************)
\* The first time a file is named it is read; what is wrong with it is
\* reported then.
Read(m, f) ==
  IF f \in m.known THEN m
  ELSE IF f \notin DOMAIN m.fs THEN Err(m, Fatal)
  ELSE [m EXCEPT !.known = @ \cup {f},
                 !.errs = @ \cup {<<Syntax, f, i>> : i \in m.fs[f].bad}]

NewFrame(nm, ls, res, pop) ==
  [nm |-> nm, ls |-> ls, i |-> 0, cond |-> <<>>, ex |-> 0, res |-> res, pop |-> pop]

Enter(m, nm, ls, res, pop) ==
  IF Len(m.fr) >= MaxDepth
  THEN LET m2 == Err(m, Fatal)
       IN IF pop THEN [m2 EXCEPT !.ip = SubSeq(@, 1, Len(@) - 1)] ELSE m2
  ELSE [m EXCEPT !.fr = Append(@, NewFrame(nm, ls, res, pop))]

\* The end of a file or macro.  res names the section to return to.
Leave(m) ==
  LET f == Top(m)
      m1 == IF f.cond # <<>> THEN Err(m, Syntax) ELSE m
      m2 == IF m.def.nm # "" THEN Err(m1, Syntax) ELSE m1
      m3 == [m2 EXCEPT !.def = [lev |-> 0, nm |-> "", n |-> 0],
                       !.fr = SubSeq(@, 1, Len(@) - 1)]
      m4 == IF f.res # "" THEN [m3 EXCEPT !.cur = f.res] ELSE m3
  IN IF f.pop THEN [m4 EXCEPT !.ip = SubSeq(@, 1, Len(@) - 1)] ELSE m4

Include(m, args) ==
  IF Len(args) < 1 THEN Err(m, Syntax)
  ELSE IF args[1].t # "str" THEN Err(m, Syntax)
  ELSE IF \E i \in 1..Len(args[1].v) : args[1].v[i] \notin 32..126 THEN OutOfDomain(m)
  ELSE LET f == CodesStr(args[1].v, 1)
           m2 == Read(m, f)
       IN IF f \in m2.known THEN Enter(m2, f, m.fs[f].ls, m.cur, FALSE) ELSE m2

(***************************************************************************)
(* Other pseudo-operations                                                 *)
(***************************************************************************)
OtherOps == {"put", "setdp", "include", "lib", "end", "page", "opt", "spc", "ttl",
             "sttl", "nam", "name"}

PutAddress(m, args) ==
  LET r == IntArg(args, 1, WOfInt(Sec(m).put))
      m2 == Errs(m, r.es)
  IN IF r.uns \/ (~WSmall(r.w) /\ ~WIsNeg(r.w)) THEN OutOfDomain(m2)
     ELSE IF WIsNeg(r.w) THEN Err(m2, OutOfRange)
     ELSE [m2 EXCEPT !.secs[m.cur].put = WInt(r.w)]

SetDp(m, args) ==
  LET r == IntArg(args, 1, WOfInt(-1))
      m2 == Errs(m, r.es)
  IN IF r.uns THEN OutOfDomain(m2)
     ELSE [m2 EXCEPT !.secs[m.cur].dp = IF WIsNeg(r.w) THEN -1 ELSE r.w[1] % 256]

End(m, args) ==
  IF Len(args) > 1 THEN Err(m, Syntax)
  ELSE IF args = <<>> THEN m
  ELSE LET v == args[1]
           r == ToInt(v)
           m2 == IF r.v.t = "undef" /\ ~r.uns /\ v.t # "undef" THEN Err(m, Syntax) ELSE m
       IN IF r.uns THEN OutOfDomain(m) ELSE SymSet(m2, ".exec", v, FALSE, m.pass)

OtherOp(m, op, args) ==
  CASE op = "put" -> IF Len(args) # 1 THEN Err(m, Syntax) ELSE PutAddress(m, args)
    [] op = "setdp" -> IF Len(args) # 1 THEN Err(m, Syntax) ELSE SetDp(m, args)
    [] op \in {"include", "lib"} -> Include(m, args)
    [] op = "end" -> End(m, args)
    [] OTHER -> m

(***************************************************************************)
(* Pseudo-operations that decide about the value of the label              *)
(***************************************************************************)
LabelOps == {"equ", "set", "org", "section", "code", "data", "bss", "ram", "auto"}

\* EQU and SET
Assign(m, lab, args, chg, pl) ==
  LET v == args[1]
      r == ToInt(v)
      m2 == LabelSet(m, lab, v, chg)
  IN IF r.uns THEN OutOfDomain(m2)
     ELSE IF r.v.t = "undef" THEN Listed(m2, pl)
     ELSE List(m2, r.v.v[1], <<>>, pl)

Org(m, lab, args, pl) ==
  LET r == IntArg(args, 1, WOfInt(Sec(m).pc))
      m1 == Errs(m, r.es)
      pc == WInt(r.w)
      m2 == [m1 EXCEPT !.secs[m.cur].pc = pc,
                       !.secs[m.cur].put = IF pc >= 0 THEN pc ELSE @]
  IN IF r.uns \/ ~WSmall(r.w) THEN OutOfDomain(m)
     ELSE ListedPc(LabelSet(m2, lab, VNat(pc), FALSE), pc, pl)

\* The section's program counter is listed, even if out of range
Section(m, name, lab, pl) ==
  LET m2 == SectionSet(m, name)
      pc == Sec(m2).pc
      m3 == LabelSet(m2, lab, VNat(pc), FALSE)
  IN IF pc < 0 THEN Listed(m3, pl) ELSE ListedPc(m3, pc, pl)

LabelOp(m, op, name, lab, args, pl) ==
  CASE op \in {"equ", "set"} ->
         IF Len(args) # 1 THEN Err(m, Syntax) ELSE Assign(m, lab, args, op = "set", pl)
    [] op = "org" -> IF Len(args) # 1 THEN Err(m, Syntax) ELSE Org(m, lab, args, pl)
    [] op = "section" ->
         IF Len(args) # 1 THEN Err(m, Syntax)
         ELSE IF args[1].t = "undef" THEN m
         ELSE IF args[1].t # "str" THEN Err(m, Syntax)
         ELSE IF \E i \in 1..Len(args[1].v) : args[1].v[i] \notin 32..126 THEN OutOfDomain(m)
         ELSE Section(m, CodesStr(args[1].v, 1), lab, pl)
    [] OTHER -> Section(m, name, lab, pl)

(***************************************************************************)
(* Names to export                                                         *)
(***************************************************************************)
RECURSIVE Export(_, _, _)
Export(m, args, i) ==
  IF i > Len(args) THEN m
  ELSE LET n == args[i].n
       IN IF n[1] = "id" THEN
            LET nm == OpName2(m, n[2])
                m2 == Errs(m, nm.es)
            IN Export(IF nm.uns THEN OutOfDomain(m2)
                      ELSE IF nm.ok THEN [m2 EXCEPT !.exp = @ \cup {nm.s}] ELSE m2, args, i + 1)
          ELSE IF n[1] = "text" THEN
            LET r == Text(Ctx(m, FALSE), n[2], 1, <<>>)
                m2 == Errs(m, r.es)
            IN IF r.uns \/ (r.v.t = "str" /\ \E k \in 1..Len(r.v.v) : r.v.v[k] \notin 32..126)
               THEN OutOfDomain(m2)
               ELSE Export(IF r.v.t = "str" THEN [m2 EXCEPT !.exp = @ \cup {CodesStr(r.v.v, 1)}]
                           ELSE m2, args, i + 1)
          ELSE Export(m, args, i + 1)

(***************************************************************************)
(* Macro definitions                                                       *)
(***************************************************************************)
BeginMacro(m, pl) ==
  LET lab == pl.label
      nm == IF lab # <<>> /\ lab[1] = "id" THEN OpName2(m, lab[2])
            ELSE NameRes(FALSE, "", "", {}, FALSE)
      m1 == Errs([m EXCEPT !.def.lev = 1], nm.es)
      m2 == IF nm.uns THEN OutOfDomain(m1)
            ELSE IF ~nm.ok THEN Err(m1, Syntax)
            ELSE IF nm.s \in DOMAIN m.macs
              THEN (IF m.macs[nm.s].pass = m.pass THEN Err(m1, Syntax) ELSE m1)
            ELSE [m1 EXCEPT !.macs = Put(@, nm.s, [ls |-> <<>>, pass |-> m.pass]),
                            !.def.nm = nm.s]
  IN Listed(m2, pl)

EndMacro(m, pl) ==
  LET r == EvArgs(Ctx(m, FALSE), pl.args)
      m1 == Errs(m, r.es)
      m2 == [m1 EXCEPT !.def = [lev |-> 0, nm |-> "", n |-> 0]]
      bad == \/ Len(pl.args) > 1
             \/ Len(pl.args) = 1 /\ r.v[1].t # "str"
      m3 == IF bad THEN Err(m2, Syntax) ELSE m2
  IN Listed(IF r.uns THEN OutOfDomain(m3) ELSE m3, pl)

Record(m, pl) ==
  Listed(IF m.def.nm = "" THEN m
         ELSE [m EXCEPT !.macs[m.def.nm].ls = Append(@, pl), !.def.n = @ + 1], pl)

(***************************************************************************)
(* Conditional assembly.  States of an open IF:                            *)
(*   "if"    no condition was true yet      "done"  one was                *)
(*   "else"  after ELSE                                                    *)
(***************************************************************************)
\* The condition: [m, ok (may it be acted upon?), true]
Cond(m, pl) ==
  LET r == EvCond(Ctx(m, TRUE), pl.args)
      m1 == Errs([m EXCEPT !.zero = @ \cup r.zero], r.es)
      x == IntArg(r.v, 1, W0)
  IN IF r.uns THEN [m |-> OutOfDomain(m1), ok |-> FALSE, true |-> FALSE]
     ELSE IF Len(pl.args) # 1 THEN [m |-> Err(m1, Syntax), ok |-> FALSE, true |-> FALSE]
     ELSE [m |-> IF x.uns THEN OutOfDomain(m1) ELSE Errs(m1, x.es), ok |-> TRUE, true |-> x.w # W0]

Push(m, st, exclude) ==
  LET f == Top(m)
  IN Frame(m, [f EXCEPT !.cond = Append(@, st),
                        !.ex = IF exclude THEN Len(f.cond) + 1 ELSE @])

If(m, pl) ==
  IF Top(m).ex # 0 THEN Push(m, "done", FALSE)
  ELSE LET c == Cond(m, pl)
       IN IF ~c.ok THEN c.m
          ELSE IF c.true THEN Push(c.m, "done", FALSE) ELSE Push(c.m, "if", TRUE)

\* Change the state of the innermost IF and what is excluded
SetTop(m, st, ex) ==
  LET f == Top(m)
  IN Frame(m, [f EXCEPT !.cond[Len(f.cond)] = st, !.ex = ex])

ElsIf(m, pl) ==
  LET f == Top(m)
      k == Len(f.cond)
  IN IF k = 0 THEN Err(m, Syntax)
     ELSE IF f.cond[k] = "else" THEN Err(m, Syntax)
     ELSE IF f.ex = 0 THEN SetTop(m, f.cond[k], k)
     ELSE IF f.ex = k /\ f.cond[k] # "done"
       THEN LET c == Cond(m, pl)
            IN IF c.ok /\ c.true THEN SetTop(c.m, "done", 0) ELSE c.m
     ELSE m

Else(m) ==
  LET f == Top(m)
      k == Len(f.cond)
  IN IF k = 0 THEN Err(m, Syntax)
     ELSE IF f.cond[k] = "else" THEN Err(m, Syntax)
     ELSE IF f.ex = k THEN (IF f.cond[k] # "done" THEN SetTop(m, "else", 0) ELSE m)
     ELSE IF f.ex = 0 THEN SetTop(m, "else", k)
     ELSE m

EndIf(m) ==
  LET f == Top(m)
      k == Len(f.cond)
  IN IF k = 0 THEN Err(m, Syntax)
     ELSE Frame(m, [f EXCEPT !.cond = SubSeq(@, 1, k - 1), !.ex = IF f.ex = k THEN 0 ELSE @])

(***************************************************************************)
(* Lines.  What a line does depends on the state as well as on the line;   *)
(* Kind(m) tells which of the transitions below the next line causes.      *)
(* m is the state with the line already counted.                           *)
(***************************************************************************)
NextLine(m) == LET f == Top(m) IN f.ls[f.i + 1]

\* The state with the next line counted
Counted(m) ==
  [m EXCEPT !.fr[Len(m.fr)].i = @ + 1, !.secs[m.cur].line = @ + 1]

\* Name of the instruction: not evaluated while lines are recorded or excluded
\* unless it needs no evaluation
NoName == NameRes(FALSE, "", "", {}, FALSE)
OpOf(m, pl) ==
  IF pl.op = <<>> THEN NoName
  ELSE IF (m.def.lev = 0 /\ Top(m).ex = 0) \/ ConstOp(pl.op) THEN OpName2(m, pl.op)
  ELSE NoName

Kind(m, pl, o) ==
  LET lc == IF o.ok THEN o.l ELSE ""
      inc == Top(m).ex = 0
  IN CASE pl.k # "line" -> "blank"
       [] inc /\ lc = "macro" /\ m.def.lev = 0 -> "macro"
       [] inc /\ lc = "macro" -> "nested macro"
       [] inc /\ lc = "endm" /\ m.def.lev = 0 -> "stray endm"
       [] inc /\ lc = "endm" /\ m.def.lev = 1 -> "endm"
       [] inc /\ lc = "endm" -> "nested endm"
       [] m.def.lev > 0 -> "record"
       [] lc \in {"opt", "sttl", "ttl"} -> "ignored"
       [] lc \in {"if", "elsif", "else", "endif"} -> lc
       [] ~inc -> "excluded"
       [] lc = "export" -> "export"
       [] lc \in LabelOps -> "label"
       [] ~o.ok -> "bare"
       [] lc \in DataOps -> "data"
       [] lc \in OtherOps -> "other"
       [] lc \in Mnemonics(m.opt.isa) -> "instruction"
       [] o.s \in DOMAIN m.macs -> "call"
       [] OTHER -> "unknown"

\* The label of a line that is assembled: [m, lab]
LabelOf(m, pl) ==
  LET l == pl.label IN
  IF l = <<>> THEN [m |-> m, lab |-> <<>>]
  ELSE IF l[1] = "int"
    THEN (IF WSmall(l[2]) THEN [m |-> m, lab |-> <<"local", WInt(l[2])>>]
          ELSE [m |-> OutOfDomain(m), lab |-> <<>>])
  ELSE LET nm == OpName2(m, l[2])
           m2 == Errs(m, nm.es)
       IN IF nm.uns THEN [m |-> OutOfDomain(m2), lab |-> <<>>]
          ELSE [m |-> m2, lab |-> IF nm.ok THEN <<"name", nm.s>> ELSE <<>>]

\* Instructions that are assembled: label and arguments are evaluated first
Assembled(m, pl, o, k) ==
  LET l == LabelOf(m, pl)
      r == EvArgs(Ctx(l.m, FALSE), pl.args)
      m1 == IF r.uns THEN OutOfDomain(l.m) ELSE Errs(l.m, r.es)
      m2 == LabelSet(m1, l.lab, VNat(Sec(m1).pc), FALSE)
      pc == Sec(m2).pc
  IN
  IF m1.uns THEN m1
  ELSE CASE k = "label" -> LabelOp(m1, o.l, o.s, l.lab, r.v, pl)
         [] k = "bare" -> IF l.lab = <<>> THEN m2 ELSE ListedPc(m2, pc, pl)
         [] k = "data" ->
              LET m3 == DataOp(m2, o.l, r.v)
              IN List(m3, pc % 65536, Since(m3, Len(m2.em)), pl)
         [] k = "other" ->
              OtherOp(IF pc < 0 THEN Listed(m2, pl) ELSE ListedPc(m2, pc, pl), o.l, r.v)
         [] k = "instruction" ->
              LET imm == pl.args # <<>> /\ pl.args[1].a = "imm"
                  e == Encode(Ops(m.opt.isa)[o.l], r.v, imm, Ctx(m2, FALSE))
                  m3 == Errs(Emit(m2, e.b), e.es)
              IN IF e.uns THEN OutOfDomain(m3) ELSE List(m3, pc % 65536, e.b, pl)
         [] k = "call" ->
              Enter([ListedPc(m2, pc, pl) EXCEPT !.ip = Append(@, r.v)],
                    o.s, m.macs[o.s].ls, "", TRUE)
         [] OTHER -> Err(m2, Syntax)

Line(m0) ==
  LET pl == NextLine(m0)
      m == Counted(m0)
      o == OpOf(m, pl)
      k == Kind(m, pl, o)
      m1 == Tag(Errs(m, o.es), k)
      m2 == IF o.uns \/ pl.uns THEN OutOfDomain(m1) ELSE m1
  IN
  IF m2.uns THEN m2
  ELSE CASE k = "blank" -> Listed(m2, pl)
         [] k = "macro" -> BeginMacro(m2, pl)
         [] k = "nested macro" -> Record([m2 EXCEPT !.def.lev = @ + 1], pl)
         [] k = "stray endm" -> Err(m2, Syntax)
         [] k = "endm" -> EndMacro(m2, pl)
         [] k = "nested endm" -> Record([m2 EXCEPT !.def.lev = @ - 1], pl)
         [] k = "record" -> Record(m2, pl)
         [] k \in {"ignored", "excluded"} -> Listed(m2, pl)
         [] k = "if" -> If(Listed(m2, pl), pl)
         [] k = "elsif" -> ElsIf(Listed(m2, pl), pl)
         [] k = "else" -> Else(Listed(m2, pl))
         [] k = "endif" -> EndIf(Listed(m2, pl))
         [] k = "export" ->
              LET l == LabelOf(m2, pl)
                  m3 == IF pl.args = <<>> THEN Err(l.m, Syntax) ELSE Export(l.m, pl.args, 1)
              IN Listed(m3, pl)
         [] OTHER -> Assembled(m2, pl, o, k)

(***************************************************************************)
(* Passes                                                                  *)
(***************************************************************************)
\* Before the first pass, symbols given as options are defined and files read.
\* In later passes the symbols are defined again.
RECURSIVE DefineAll(_, _), ReadAll(_, _)
DefineAll(m, i) ==
  IF i > Len(m.opt.defs) THEN m
  ELSE DefineAll(SymSet(m, m.opt.defs[i][1], VInt(m.opt.defs[i][2]), FALSE, Max({m.pass, 0})), i + 1)
ReadAll(m, i) == IF i > Len(m.opt.files) THEN m ELSE ReadAll(Read(m, m.opt.files[i]), i + 1)

\* fs0: name -> unparsed lines
Start(opt, fs0, bins) ==
  LET P(f) == LET ls == ParseFile(fs0[f], opt.isa)
              IN [ls |-> ls, bad |-> {i \in 1..Len(ls) : ls[i].k = "bad"}]
      m == [ph |-> "pass", opt |-> opt, fs |-> [f \in DOMAIN fs0 |-> P(f)], bins |-> bins,
            pass |-> -1, main |-> 0, fr |-> <<>>, def |-> [lev |-> 0, nm |-> "", n |-> 0],
            ip |-> <<>>, secs |-> ("" :> [NewSection EXCEPT !.pass = -2]), cur |-> "",
            syms |-> <<>>, zero |-> {}, macs |-> <<>>, exp |-> {}, known |-> {}, errs |-> {}, em |-> <<>>,
            lst |-> <<>>, syms0 |-> [syms |-> <<>>, secs |-> <<>>], tags |-> {}, uns |-> FALSE,
            n |-> 0]
      m2 == ReadAll(DefineAll(m, 1), 1)
  IN IF Level(m2.errs) >= Syntax THEN [m2 EXCEPT !.ph = "done"] ELSE m2

BeginPass(m) ==
  LET m1 == [m EXCEPT !.ph = "run", !.pass = @ + 1, !.main = 0, !.errs = {}, !.em = <<>>,
                      !.lst = <<>>, !.syms0 = [syms |-> m.syms, secs |-> m.secs],
                      !.zero = {}, !.macs = <<>>, !.exp = {}]
      m2 == SectionSet(m1, CodeSection)
  IN IF m2.pass = 0 THEN m2 ELSE DefineAll(m2, 1)

NextFile(m) ==
  LET f == m.opt.files[m.main + 1]
  IN Enter([m EXCEPT !.main = @ + 1], f, m.fs[f].ls, "", FALSE)

\* Of what only earlier passes defined nothing is left
Current(f, pass) == [x \in {y \in DOMAIN f : f[y].pass = pass} |-> f[x]]

\* Another pass is needed if, and only if, something was inconsistent: a
\* section moved, a definition is gone, or the final value of a symbol that
\* may change within a pass is not what it was.
EndPass(m) ==
  LET moved(s) == m.secs[s].lpc # m.secs[s].pc \/ m.secs[s].lput # m.secs[s].put
      gone == \/ \E x \in DOMAIN m.syms : m.syms[x].pass # m.pass
              \/ \E s \in DOMAIN m.secs :
                   \E d \in DOMAIN m.secs[s].loc : m.secs[s].loc[d].pass # m.pass
      changed(x) == LET y == m.syms[x]
                    IN /\ y.pass = m.pass /\ y.chg
                       /\ IF y.last.t = "undef" THEN Matters(m, x, m.pass) ELSE ~ValEq(y.last, y.v)
      m1 == IF \/ gone
               \/ \E s \in DOMAIN m.secs : moved(s)
               \/ \E x \in DOMAIN m.syms : changed(x)
            THEN ErrAt(m, Inconsistent, <<"", 0>>) ELSE m
      m2 == [m1 EXCEPT !.syms = Current(@, m.pass),
                       !.secs = [s \in DOMAIN @ |->
                                   [@[s] EXCEPT !.lpc = m.secs[s].pc, !.lput = m.secs[s].put,
                                                !.loc = Current(@, m.pass)]]]
  IN [m2 EXCEPT !.ph = IF Level(m2.errs) = Inconsistent /\ m.pass + 1 < m.opt.maxp
                       THEN "pass" ELSE "done"]

AtEnd(m) == LET f == Top(m) IN f.i >= Len(f.ls)

(***************************************************************************)
(* Transitions.  One of these is enabled in every state that is not final. *)
(***************************************************************************)
CanBegin(m) == m.ph = "pass" /\ ~m.uns
Running(m) == m.ph = "run" /\ ~m.uns
CanFile(m) == Running(m) /\ m.fr = <<>> /\ m.main < Len(m.opt.files)
CanEnd(m) == Running(m) /\ m.fr = <<>> /\ m.main = Len(m.opt.files)
CanLeave(m) == Running(m) /\ m.fr # <<>> /\ AtEnd(m)
CanLine(m) == Running(m) /\ m.fr # <<>> /\ ~AtEnd(m)

Final(m) == m.ph = "done" \/ m.uns
Accepted(m) == m.ph = "done" /\ ~m.uns /\ Level(m.errs) < Inconsistent

Succ(m) ==
  [(CASE CanBegin(m) -> BeginPass(m)
      [] CanFile(m) -> NextFile(m)
      [] CanEnd(m) -> EndPass(m)
      [] CanLeave(m) -> Leave(m)
      [] OTHER -> Line(m)) EXCEPT !.n = m.n + 1]
==============================================================================
