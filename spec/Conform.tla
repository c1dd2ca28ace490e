------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Checks recorded runs of the assembler against the specification.        *)
(*                                                                         *)
(* The cases are read from a file.  Each has source files and one or more  *)
(* runs of the assembler on them, which may differ in the options that do  *)
(* not affect the code generated.  The machine is run on the sources; in   *)
(* its final state everything that was observed of the runs is compared    *)
(* with what that state requires, and a verdict printed.                   *)
(*                                                                         *)
(* The state graph has one path for each case.  The listing makes every    *)
(* line processed by the last pass observable, with the address and bytes  *)
(* the machine gave it, so what is compared is a trace rather than just    *)
(* the final result.                                                       *)
(***************************************************************************)
EXTENDS CmdLine, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES cid, m
vars == <<cid, m>>
View == <<cid, m.n>>

Has(r, f) == f \in DOMAIN r

\* JSON: objects become records, arrays sequences
Files(c) == [f \in DOMAIN c.files |-> c.files[f]]

MachineOptions(o) ==
  [isa |-> o.isa, setdp |-> o.setdp, maxp |-> o.maxp, defs |-> o.defs, files |-> o.files]

Options(c, i) == CommandLine(c.runs[i].argv)

Init ==
  /\ cid \in 1..Len(Cases)
  /\ m = [ph |-> "parse", uns |-> FALSE, n |-> 0]

(***************************************************************************)
(* Transitions.  The machine's, on the case's sources                      *)
(***************************************************************************)
ReadSources ==
  /\ m.ph = "parse"
  /\ LET c == Cases[cid]
         o == Options(c, 1)
     IN m' = IF o.st = "go"
             THEN [Start(MachineOptions(o), Files(c), c.bins) EXCEPT !.n = 1]
             ELSE [ph |-> "refused", uns |-> o.st = "unsupported", n |-> 1]

Machine1(can) == m.ph \notin {"parse", "refused", "done"} /\ can /\ m' = Succ(m)

StartPass    == Machine1(CanBegin(m))
StartFile    == Machine1(CanFile(m))
FinishPass   == Machine1(CanEnd(m))
LeaveSource  == Machine1(CanLeave(m))

\* The kind of the next line decides which of these it is
LineKind == LET m1 == Counted(m)
                pl == NextLine(m)
            IN Kind(m1, pl, OpOf(m1, pl))
IsLine(k, K) == k \in K /\ m' = Succ(m)
DefineMacro(k)  == IsLine(k, {"macro", "nested macro", "endm", "nested endm", "stray endm", "record"})
Conditional(k)  == IsLine(k, {"if", "elsif", "else", "endif", "excluded"})
Directive(k)    == IsLine(k, {"label", "bare", "other", "export", "ignored", "blank"})
Data(k)         == IsLine(k, {"data"})
Instruction(k)  == IsLine(k, {"instruction", "unknown"})
CallMacro(k)    == IsLine(k, {"call"})

\* A state of a long program is costly to keep, so there only every 64th is kept
Long == \E f \in DOMAIN m.fs : Len(m.fs[f].ls) > 250
RECURSIVE Lines(_, _)
Lines(x, k) == IF k = 0 \/ ~CanLine(x) THEN x ELSE Lines(Succ(x), k - 1)
ManyLines ==
  /\ m.ph = "run"
  /\ CanLine(m)
  /\ Long
  /\ m' = Lines(m, 64)

SourceLine ==
  /\ m.ph = "run"
  /\ CanLine(m)
  /\ ~Long
  /\ LET k == LineKind
     IN \/ DefineMacro(k) \/ Conditional(k) \/ Directive(k) \/ Data(k)
        \/ Instruction(k) \/ CallMacro(k)

(***************************************************************************)
(* What the final state requires of a run                                  *)
(***************************************************************************)
Category(sev) == CASE sev \in {1, 2} -> "w" [] sev = 5 -> "s" [] OTHER -> "e"

\* Which of a list of errors is printed
Printed(errs, verb) ==
  {<<Category(e[1]), e[2], e[3]>> :
     e \in {x \in errs : IF Level(errs) >= Inconsistent THEN x[1] >= Level(errs)
                         ELSE x[1] >= 2 - verb}}

PlainErr(sev) == <<sev, "", 0>>
Exportable == {"int", "float", "reg", "str"}
SymOk(name) == name \in DOMAIN m.syms /\ m.syms[name].v.t # "undef"

\* Exec address: [exec, errs]
Exec(o) ==
  IF o.exec = <<>> THEN [exec |-> EndExec(m), errs |-> {}, uns |-> FALSE]
  ELSE LET r == SimpleInt(o.exec)
           s == CodesStr(o.exec, 1)
           v == ToInt(m.syms[s].v)
       IN CASE r.k = "int" -> [exec |-> r.w[1], errs |-> {}, uns |-> FALSE]
            [] r.k = "unsupported" -> [exec |-> 0, errs |-> {}, uns |-> TRUE]
            [] ~SymOk(s) -> [exec |-> 0, errs |-> {PlainErr(Inconsistent), PlainErr(Fatal)}, uns |-> FALSE]
            [] v.v.t # "int" -> [exec |-> 0, errs |-> {PlainErr(Fatal)}, uns |-> v.uns]
            [] OTHER -> [exec |-> v.v.v[1], errs |-> {}, uns |-> v.uns]

ImageSegs == Segs(m)
Listable == {s \in DOMAIN m.syms : s # ".exec"}

\* Errors found while writing the results.  cannot: files that can't be written
LateErrors(o, cannot, segs) ==
  LET Wants(f) == f # ""
      io == IF \E f \in {o.output, o.listing, o.exports, o.symbols} : f \in cannot
            THEN {PlainErr(Fatal)} ELSE {}
      lap == IF Wants(o.output) /\ o.output \notin cannot /\ Overlaps(segs) THEN {PlainErr(DataError)} ELSE {}
      fit == IF Wants(o.output) /\ o.output \notin cannot /\ ~Overlaps(segs) /\ ~Fits(o.fmt, Runs(segs))
             THEN {PlainErr(DataError)} ELSE {}
      exp == IF ~Wants(o.exports) \/ o.exports \in cannot THEN {}
             ELSE (IF \E x \in m.exp : x \notin DOMAIN m.macs /\ ~SymOk(x) THEN {PlainErr(Inconsistent)} ELSE {})
                  \cup (IF \E x \in m.exp : x \notin DOMAIN m.macs /\ SymOk(x) /\ m.syms[x].v.t \notin Exportable
                        THEN {PlainErr(Syntax)} ELSE {})
      sym == IF ~Wants(o.symbols) \/ o.symbols \in cannot THEN {}
             ELSE (IF \E x \in Listable : ~SymOk(x) THEN {PlainErr(Inconsistent)} ELSE {})
                  \cup (IF \E x \in Listable : SymOk(x) /\ m.syms[x].v.t \notin Exportable
                        THEN {PlainErr(Syntax)} ELSE {})
  IN Exec(o).errs \cup io \cup lap \cup fit \cup exp \cup sym

(***************************************************************************)
(* Symbols and exports                                                     *)
(***************************************************************************)
EmptyCtx == [pc |-> 0, line |-> 0, locals |-> <<>>, syms |-> <<>>, interp |-> <<>>, zero |-> FALSE]

CutLine(l, i) == [c |-> SubSeq(l.c, i, Len(l.c)), s |-> SubSeq(l.s, i, Len(l.s)),
                  l |-> SubSeq(l.l, i, Len(l.l)), x |-> l.x]

Starts(l, p) == Len(l.s) >= Len(p) /\ SubSeq(l.s, 1, Len(p)) = p

\* Does line l assign value v?  It has the name's length k.
SameValue(x, v) ==
  ValEq(x, v) /\ (v.t # "reg" \/ x.a = SetAttrIf(v, "").a)
Assigns(l, k, v, isa) ==
  LET pl == ParseLine(CutLine(l, k + 1), isa)
      r == Ev(EmptyCtx, pl.args[1].n, pl.args[1].a)
  IN \/ pl.uns /\ (v.t = "float" \/ (v.t = "int" /\ v.v = <<0, 0, 0, 32768>>))
     \/ /\ pl.k = "line" /\ pl.label = NoLabel /\ pl.op # <<>> /\ pl.op[1][3] = "equ"
        /\ ~pl.drop /\ Len(pl.args) = 1 /\ r.es = {}
        /\ SameValue(r.v, v)

SymLineOk(l, name, isa) ==
  Starts(l, name \o "\tequ\t") /\ Assigns(l, Len(name), m.syms[name].v, isa)

\* A symbol's line may not appear twice
SymbolsOk(ls, isa) ==
  LET want == {x \in Listable : SymOk(x) /\ m.syms[x].v.t \in Exportable}
  IN /\ Len(ls) = Cardinality(want)
     /\ \A x \in want : \E i \in 1..Len(ls) : SymLineOk(ls[i], x, isa)

\* Syntax trees that mean the same
RECURSIVE JoinText(_, _)
JoinText(parts, i) ==
  IF i > Len(parts) THEN <<>>
  ELSE LET rest == JoinText(parts, i + 1)
       IN IF parts[i][1] = "T" /\ rest # <<>> /\ rest[1][1] = "T"
          THEN <<<<"T", parts[i][2] \o rest[1][2]>>>> \o Tail(rest)
          ELSE IF parts[i][1] = "S" /\ rest # <<>> /\ rest[1][1] = "S"
          THEN <<<<"S", parts[i][2] \o rest[1][2], parts[i][3] \o rest[1][3]>>>> \o Tail(rest)
          ELSE <<parts[i]>> \o rest

RECURSIVE NormTree(_), NormArgs(_)
NormTree(n) ==
  CASE n = <<>> -> n
    [] n[1] \in {"text", "id"} -> <<n[1], JoinText(n[2], 1)>>
    [] n[1] = "op1" -> <<"op1", n[2], NormTree(n[3])>>
    [] n[1] = "op2" -> <<"op2", n[2], NormTree(n[3]), NormTree(n[4])>>
    [] n[1] = "op3" -> <<"op3", NormTree(n[2]), NormTree(n[3]), NormTree(n[4])>>
    [] n[1] = "arr" -> <<"arr", NormArgs(n[2])>>
    [] n[1] = "float" -> <<"float", DDecimal(n[2], n[3])>>
    [] OTHER -> n
NormArgs(args) == [i \in 1..Len(args) |-> [n |-> NormTree(args[i].n), a |-> args[i].a]]

\* An instruction without arguments is the same as one with an empty argument
\* only if it takes none or any number; they are printed differently
SameLine(x, y) ==
  /\ x.k = y.k
  /\ NormTree(x.label) = NormTree(y.label)
  /\ JoinText(x.op, 1) = JoinText(y.op, 1)
  /\ \/ NormArgs(x.args) = NormArgs(y.args)
     \/ \* nothing but a comment where the operands would be
        x.drop /\ y.args = <<>> /\ NormArgs(x.args) = <<[n |-> <<"empty">>, a |-> ""]>>
  /\ ~y.drop

\* The lines that define something, from line i: <<number of lines, ok>>
MacroLinesOk(ls, i, mac, isa) ==
  /\ i + Len(mac.ls) + 1 <= Len(ls)
  /\ \A k \in 1..Len(mac.ls) : \/ SameLine(mac.ls[k], ParseLine(ls[i + k], isa))
                               \/ mac.ls[k].uns
  /\ LET e == ParseLine(ls[i + Len(mac.ls) + 1], isa)
     IN e.k = "line" /\ e.op # <<>> /\ e.op[1][3] = "endm" /\ e.label = NoLabel

ExportLines(x) ==
  IF x \in DOMAIN m.macs THEN Len(m.macs[x].ls) + 2
  ELSE IF SymOk(x) /\ m.syms[x].v.t \in Exportable THEN 1 ELSE 0

ExportsOk(ls, isa) ==
  /\ Len(ls) = FoldSet(LAMBDA x, n : n + ExportLines(x), 0, m.exp)
  /\ \A x \in m.exp :
       \/ x \in DOMAIN m.macs /\ \E i \in 1..Len(ls) : /\ Starts(ls[i], x \o "\tmacro")
                                                       /\ MacroLinesOk(ls, i, m.macs[x], isa)
       \/ x \notin DOMAIN m.macs /\ ExportLines(x) = 0
       \/ x \notin DOMAIN m.macs /\ \E i \in 1..Len(ls) : SymLineOk(ls[i], x, isa)

(***************************************************************************)
(* Comparison: what is wrong with a run                                    *)
(***************************************************************************)
If1(cond, what) == IF cond THEN {what} ELSE {}

ListingOk(ls) ==
  /\ Len(ls) = Len(m.lst)
  /\ \A i \in 1..Len(ls) : ls[i] = ListLine(m.lst[i])

FirstDiff(ls) ==
  LET S == {i \in 1..Len(m.lst) : i > Len(ls) \/ ls[i] # ListLine(m.lst[i])}
  IN IF S = {} THEN [line |-> Len(m.lst) + 1, want |-> "nothing more"]
     ELSE [line |-> Min(S), want |-> ListLine(m.lst[Min(S)])]

RefusedComplaints(run, o) ==
  If1(run.rc # (IF o.st = "info" THEN 0 ELSE 1), "exit status")
  \cup If1(o.st # "info" /\ ~run.msg, "no message")
  \cup If1(run.wrote # <<>>, "output written")

\* What is not a file, and has no lines for a message to name
Directories == {".", "..", "./"}

Complaints(run, o, segs, runs) ==
  LET acc == Accepted(m)
      cannot == ToSet(run.cannot)
      late == IF acc THEN LateErrors(o, cannot, segs) ELSE {}
      want == Printed(m.errs, o.verb) \cup Printed(late, o.verb)
      rc == IF ~acc \/ late # {} THEN 1 ELSE 0
      x == Exec(o)
      Wrote(f) == acc /\ f # "" /\ f \notin cannot
      bad == LateErrors([o EXCEPT !.exports = "", !.symbols = "", !.listing = ""], {}, segs)
  IN If1(run.rc # rc, "exit status")
     \cup If1(IF \E d \in ToSet(run.diag) : d[2] \in Directories
              THEN {d[1] : d \in ToSet(run.diag)} # {d[1] : d \in want}
              ELSE ToSet(run.diag) # want, "messages")
     \cup If1(~acc /\ run.wrote # <<>>, "output written")
     \cup If1(Wrote(o.output) /\ ~Has(run, "out"), "no output")
     \cup (IF Wrote(o.output) /\ Has(run, "out") /\ ~Overlaps(segs) /\ Fits(o.fmt, runs)
           THEN FileComplaints(o.fmt, run.out, runs, x.exec) ELSE {})
     \cup If1(Wrote(o.listing) /\ ~Has(run, "lst"), "no listing")
     \cup (IF Wrote(o.listing) /\ Has(run, "lst") THEN If1(~ListingOk(run.lst), "listing") ELSE {})
     \cup If1(Wrote(o.symbols) /\ ~Has(run, "sym"), "no symbols")
     \cup (IF Wrote(o.symbols) /\ Has(run, "sym") THEN If1(~SymbolsOk(run.sym, o.isa), "symbols") ELSE {})
     \cup If1(Wrote(o.exports) /\ m.exp # {} /\ ~Has(run, "exp"), "no exports")
     \cup (IF Wrote(o.exports) /\ Has(run, "exp") THEN If1(~ExportsOk(run.exp, o.isa), "exports") ELSE {})

(***************************************************************************)
(* Properties of accepted programs as the machine sees them                *)
(***************************************************************************)
\* An accepted program is a fixed point: another pass generates the same data
\* and listing, and defines the same symbols with the same values.
RECURSIVE FinishPass1(_)
FinishPass1(q) == IF q.ph = "run" /\ ~q.uns THEN FinishPass1(Succ(q)) ELSE q
Again == FinishPass1(BeginPass([m EXCEPT !.opt.maxp = m.pass + 2]))
SameSyms(f, g) == /\ DOMAIN f = DOMAIN g
                  /\ \A x \in DOMAIN f : ValEq(f[x].v, g[x].v)
FixedPoint ==
  LET q == Again
  IN \/ q.uns
     \/ /\ Level(q.errs) < Inconsistent
        /\ q.em = m.em
        /\ q.lst = m.lst
        /\ SameSyms(q.syms, m.syms)
        /\ q.exp = m.exp
        /\ DOMAIN q.macs = DOMAIN m.macs

\* The symbols' values are those with which the last pass was started
Settled == m.pass = 0 \/ SameSyms(m.syms, m.syms0.syms)

\* Same image as that found in another run's plain binary output
RefComplaints(c, runs) ==
  IF ~Has(c, "ref") \/ ~Accepted(m) THEN {}
  ELSE LET p == Padded(runs) IN If1((IF p = <<>> THEN <<>> ELSE p[1].b) # c.ref, "other source differs")

\* Runs with the same arguments have the same results
Repetitions(c) ==
  LET n == Len(c.runs)
      Same(x, y) == /\ x.rc = y.rc
                    /\ x.text = y.text
                    /\ \A f \in {"out", "lst", "sym", "exp"} :
                         Has(x, f) = Has(y, f) /\ (Has(x, f) => x[f] = y[f])
  IN If1(\E i, j \in 1..n : i < j /\ c.runs[i].argv = c.runs[j].argv /\ ~Same(c.runs[i], c.runs[j]),
         "runs differ")

(***************************************************************************)
(* Verdict                                                                 *)
(***************************************************************************)
Describe(run, o, segs, runs) ==
  LET acc == Accepted(m)
      late == IF acc THEN LateErrors(o, ToSet(run.cannot), segs) ELSE {}
  IN [accepted |-> acc,
      diag |-> SetToSeq(Printed(m.errs, o.verb) \cup Printed(late, o.verb)),
      exec |-> IF acc THEN Exec(o).exec ELSE -1,
      image |-> IF acc THEN runs ELSE <<>>,
      listing |-> IF acc /\ Has(run, "lst") THEN FirstDiff(run.lst) ELSE [line |-> 0, want |-> ""],
      syms |-> IF acc THEN SetToSeq({<<x, m.syms[x].v>> : x \in DOMAIN m.syms}) ELSE <<>>]

Verdict ==
  LET c == Cases[cid]
      n == Len(c.runs)
      os == TLCEval([i \in 1..n |-> Options(c, i)])
      R == m.ph = "refused"
      segs == IF R THEN <<>> ELSE ImageSegs
      runs == IF ~R /\ Accepted(m) /\ ~Overlaps(segs) THEN Runs(segs) ELSE <<>>
      skip == m.uns \/ (~R /\ Accepted(m) /\ \E i \in 1..n : Exec(os[i]).uns)
      bad == IF skip THEN <<>>
             ELSE IF R THEN TLCEval([i \in 1..n |-> RefusedComplaints(c.runs[i], os[i])])
             ELSE TLCEval([i \in 1..n |->
                     IF MachineOptions(os[i]) # m.opt THEN {"HARNESS: options differ"}
                     ELSE Complaints(c.runs[i], os[i], segs, runs)])
      ref == IF skip \/ R THEN {} ELSE RefComplaints(c, runs)
      worst == {i \in 1..Len(bad) : bad[i] # {}}
      acc == ~R /\ Accepted(m)
      again == IF skip \/ ~acc \/ ~Has(c, "again") THEN {} ELSE If1(~FixedPoint, "SPEC: not a fixed point")
      own == ref \cup again \cup If1(acc /\ ~skip /\ ~Settled, "SPEC: not settled")
             \cup (IF skip THEN {} ELSE Repetitions(c))
  IN [id |-> c.id, skip |-> skip,
      bad |-> SetToSeq(own),
      bads |-> [i \in 1..Len(bad) |-> SetToSeq(bad[i])],
      run |-> IF worst = {} THEN 0 ELSE Min(worst),
      accepted |-> acc,
      level |-> IF R \/ skip THEN 0 ELSE Level(m.errs),
      passes |-> IF R THEN 0 ELSE m.pass + 1,
      lines |-> IF acc THEN Len(m.lst) ELSE 0,
      nbytes |-> IF acc THEN FoldSeq(LAMBDA x, y : Len(x.b) + y, 0, segs) ELSE 0,
      steps |-> m.n,
      tags |-> IF R THEN <<>> ELSE SetToSeq(m.tags),
      want |-> IF worst = {} \/ R THEN <<>> ELSE <<Describe(c.runs[Min(worst)], os[Min(worst)], segs, runs)>>]

Report ==
  /\ m.ph \notin {"parse", "reported"}
  /\ (m.ph \in {"done", "refused"} \/ m.uns)
  /\ PrintT("@@" \o ToJson(Verdict))
  /\ m' = [ph |-> "reported", uns |-> FALSE, n |-> m.n + 1]

Next ==
  /\ UNCHANGED cid
  /\ \/ ReadSources \/ StartPass \/ StartFile \/ FinishPass \/ LeaveSource
     \/ SourceLine \/ ManyLines
     \/ Report

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Invariants of the machine, checked in every state of every case         *)
(***************************************************************************)
Alive == m.ph \in {"pass", "run", "done"}

\* Data is generated at the addresses the section's counters say, and
\* nothing generated in an earlier pass is left
TypeOk ==
  Alive => /\ Len(m.fr) <= MaxDepth
           /\ m.pass < m.opt.maxp
           /\ m.ph = "done" => \A i \in 1..Len(m.em) : m.em[i].s \in DOMAIN m.secs /\ m.em[i].b # <<>>
           /\ m.ph = "run" => m.cur \in DOMAIN m.secs

\* Lines are excluded only within an IF, and at most one of its parts is not
CondOk ==
  Alive => \A i \in 1..Len(m.fr) : m.fr[i].ex <= Len(m.fr[i].cond)
==============================================================================
