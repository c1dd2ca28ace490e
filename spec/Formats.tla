------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* What an accepted program leaves behind: the memory image, and how the   *)
(* output formats represent it.  The formats are specified by how a loader *)
(* reads them, not by how they are written.                                *)
(***************************************************************************)
EXTENDS Machine, SequencesExt

(***************************************************************************)
(* Memory images: sequences of runs [p: address, b: bytes], sorted, not    *)
(* empty and with a gap between any two.                                   *)
(***************************************************************************)
\* Pieces i to j, none empty and in order of address, joined where they meet
RECURSIVE JoinRuns(_, _, _)
JoinRuns(s, i, j) ==
  IF i = j THEN <<s[i]>>
  ELSE LET k == (i + j) \div 2
           x == JoinRuns(s, i, k)
           y == JoinRuns(s, k + 1, j)
           e == x[Len(x)]
       IN IF e.p + Len(e.b) = y[1].p
          THEN [x EXCEPT ![Len(x)] = [p |-> e.p, b |-> e.b \o y[1].b]] \o Tail(y)
          ELSE x \o y

Sorted(segs) == SortSeq(SelectSeq(segs, LAMBDA x : x.b # <<>>), LAMBDA x, y : x.p < y.p)

Runs(segs) ==
  LET s == Sorted(segs)
  IN IF s = <<>> THEN <<>> ELSE JoinRuns(s, 1, Len(s))

\* Do two pieces share an address?  If so, so do two that are neighbours.
Overlaps(segs) ==
  LET s == Sorted(segs)
  IN \E i \in 1..(Len(s) - 1) : s[i + 1].p < s[i].p + Len(s[i].b)

\* The data generated in the last pass, by put address
Segs(m) == TLCEval([i \in 1..Len(m.em) |-> [p |-> m.em[i].put, b |-> m.em[i].b]])

\* One run, gaps filled with zeros
RECURSIVE PadFrom(_, _, _)
PadFrom(runs, i, acc) ==
  IF i > Len(runs) THEN acc
  ELSE LET gap == runs[i].p - (runs[1].p + Len(acc))
       IN PadFrom(runs, i + 1, acc \o [k \in 1..gap |-> 0] \o runs[i].b)
Padded(runs) == IF runs = <<>> THEN <<>> ELSE <<[p |-> runs[1].p, b |-> PadFrom(runs, 2, runs[1].b)]>>

(***************************************************************************)
(* Loaders.  Result: [ok, segs, exec]; exec is -1 if the format has none.  *)
(***************************************************************************)
BadFile == [ok |-> FALSE, segs |-> <<>>, exec |-> -1]
W16(b, i) == b[i] * 256 + b[i + 1]

LoadDragon(b) ==
  IF Len(b) < 9 THEN BadFile
  ELSE IF \/ b[1] # 85 \/ b[2] # 2 \/ b[9] # 170
          \/ Len(b) # 9 + W16(b, 5)
       THEN BadFile
  ELSE [ok |-> TRUE, segs |-> <<[p |-> W16(b, 3), b |-> SubSeq(b, 10, Len(b))]>>,
        exec |-> W16(b, 7)]

RECURSIVE LoadCocoFrom(_, _, _)
LoadCocoFrom(b, i, acc) ==
  IF i + 4 > Len(b) THEN BadFile
  ELSE IF b[i] = 255 THEN
    (IF i + 4 = Len(b) /\ b[i + 1] = 0 /\ b[i + 2] = 0
     THEN [ok |-> TRUE, segs |-> acc, exec |-> W16(b, i + 3)] ELSE BadFile)
  ELSE LET n == W16(b, i + 1)
       IN IF b[i] # 0 \/ i + 4 + n > Len(b) THEN BadFile
          ELSE LoadCocoFrom(b, i + 5 + n, Append(acc, [p |-> W16(b, i + 3),
                                                       b |-> SubSeq(b, i + 5, i + 4 + n)]))

Nibble(ch) == CASE ch \in 48..57 -> ch - 48 [] ch \in 65..70 -> ch - 55
                [] ch \in 97..102 -> ch - 87 [] OTHER -> -1

\* The bytes written as hex digits from i to before j, <<-1>> if malformed
HexBytes(b, i, j) ==
  IF (j - i) % 2 # 0 \/ \E k \in i..(j - 1) : Nibble(b[k]) < 0 THEN <<-1>>
  ELSE TLCEval([k \in 1..((j - i) \div 2) |-> Nibble(b[i + 2 * (k - 1)]) * 16 + Nibble(b[i + 2 * (k - 1) + 1])])

Sum(b) == FoldSeq(LAMBDA x, y : x + y, 0, b)

\* Positions of the line ends
LineEnds(b) == SelectSeq([k \in 1..Len(b) |-> k], LAMBDA k : b[k] = 10)

\* The lines of a file of records, without the line ends.  Every line has one.
RecordLines(b) ==
  LET e == LineEnds(b)
  IN IF e = <<>> THEN <<>>
     ELSE IF e[Len(e)] # Len(b) THEN <<>>
     ELSE [k \in 1..Len(e) |-> SubSeq(b, IF k = 1 THEN 1 ELSE e[k - 1] + 1, e[k] - 1)]

\* A record in S-record format: [t: type, a: address, b: bytes]; type -1 if malformed
SRecord(l) ==
  LET r == HexBytes(l, 3, Len(l) + 1)
      n == Len(r)
  IN IF Len(l) < 10 \/ r = <<-1>> THEN [t |-> -1, a |-> 0, b |-> <<>>]
     ELSE IF l[1] # 83 \/ r[1] # n - 1 \/ Sum(r) % 256 # 255 THEN [t |-> -1, a |-> 0, b |-> <<>>]
     ELSE [t |-> l[2] - 48, a |-> W16(r, 2), b |-> SubSeq(r, 4, n - 1)]

\* A record in Intel hex format
HexRecord(l) ==
  LET r == HexBytes(l, 2, Len(l) + 1)
      n == Len(r)
  IN IF Len(l) < 11 \/ r = <<-1>> THEN [t |-> -1, a |-> 0, b |-> <<>>]
     ELSE IF l[1] # 58 \/ r[1] # n - 5 \/ Sum(r) % 256 # 0 THEN [t |-> -1, a |-> 0, b |-> <<>>]
     ELSE [t |-> r[4], a |-> W16(r, 2), b |-> SubSeq(r, 5, n - 1)]

\* Records of type data and, last, one of type end that has no data
LoadRecords(rs, data, end) ==
  LET n == Len(rs)
  IN IF n = 0 THEN BadFile
     ELSE IF rs[n].t # end \/ rs[n].b # <<>> \/ \E i \in 1..(n - 1) : rs[i].t # data THEN BadFile
     ELSE [ok |-> TRUE, segs |-> [i \in 1..(n - 1) |-> [p |-> rs[i].a, b |-> rs[i].b]], exec |-> rs[n].a]

LoadSrec(b) ==
  LET ls == RecordLines(b) IN LoadRecords(TLCEval([i \in 1..Len(ls) |-> SRecord(ls[i])]), 1, 9)
LoadHex(b) ==
  LET ls == RecordLines(b) IN LoadRecords(TLCEval([i \in 1..Len(ls) |-> HexRecord(ls[i])]), 0, 1)

\* A plain binary is loaded wherever the user knows it belongs
Load(fmt, b, where) ==
  CASE fmt = "B" -> [ok |-> TRUE, segs |-> <<[p |-> where, b |-> b]>>, exec |-> -1]
    [] fmt = "D" -> LoadDragon(b)
    [] fmt = "C" -> LoadCocoFrom(b, 1, <<>>)
    [] fmt = "S" -> LoadSrec(b)
    [] OTHER -> LoadHex(b)

\* Can the format represent the image?
Fits(fmt, runs) ==
  LET ok(r, max) == r.p + Len(r.b) <= 65536 /\ Len(r.b) <= max
  IN CASE fmt = "B" -> TRUE
       [] fmt = "D" -> runs = <<>> \/ ok(Padded(runs)[1], 65535)
       [] fmt = "C" -> \A i \in 1..Len(runs) : ok(runs[i], 65535)
       [] OTHER -> \A i \in 1..Len(runs) : ok(runs[i], 65536)

(***************************************************************************)
(* Exec address.  With option -e, its value; otherwise END's, if it is not *)
(* negative.  -1 if there is none.                                         *)
(***************************************************************************)
EndExec(m) ==
  IF ".exec" \notin DOMAIN m.syms THEN -1
  ELSE LET r == ToInt(m.syms[".exec"].v)
       IN IF r.v.t # "int" THEN -1 ELSE IF WIsNeg(r.v.v) THEN -1 ELSE r.v.v[1]

\* Without one, formats that need one use the lowest address of the data
ExecOk(fmt, exec, runs, found) ==
  CASE fmt = "B" -> TRUE
    [] exec >= 0 -> found = exec
    [] fmt \in {"D", "C"} -> runs = <<>> \/ found = runs[1].p
    [] OTHER -> found = 0

\* Is the file what the format requires for the image?  Set of complaints.
FileComplaints(fmt, bytes, runs, exec) ==
  LET want == IF fmt \in {"B", "D"} THEN Padded(runs) ELSE runs
      where == IF runs = <<>> THEN 0 ELSE runs[1].p
      f == Load(fmt, bytes, where)
  IN IF ~f.ok THEN {"format"}
     ELSE (IF Overlaps(f.segs) THEN {"overlap"} ELSE IF Runs(f.segs) # want THEN {"image"} ELSE {})
          \cup (IF ExecOk(fmt, exec, runs, f.exec) THEN {} ELSE {"exec"})

(***************************************************************************)
(* The listing                                                             *)
(***************************************************************************)
HexCh16 == "0123456789ABCDEF"
Hex1 == TLCEval([n \in 0..15 |-> SubSeq(HexCh16, n + 1, n + 1)])
Hex2 == TLCEval([n \in 0..255 |-> Hex1[n \div 16] \o Hex1[n % 16]])
Hex4(n) == Hex2[n \div 256] \o Hex2[n % 256]

RECURSIVE HexStr(_, _, _)
HexStr(b, i, j) ==   \* divide and conquer: strings are copied when pasted
  IF i > j THEN "" ELSE IF i = j THEN Hex2[b[i]]
  ELSE LET k == (i + j) \div 2 IN HexStr(b, i, k) \o HexStr(b, k + 1, j)

Blanks == "                      "
\* Address, bytes and, from column 22 or after a space, the text
ListLine(e) ==
  LET h == (IF e.a >= 0 THEN Hex4(e.a) \o "  " ELSE "") \o HexStr(e.b, 1, Len(e.b))
  IN h \o (IF Len(h) < 22 THEN SubSeq(Blanks, 1, 22 - Len(h)) ELSE " ") \o e.s
==============================================================================
