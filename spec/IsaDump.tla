------------------------------- MODULE IsaDump -------------------------------
(* Prints the instruction sets of the specification, for generating programs *)
EXTENDS Isa, Json, SequencesExt

Entry(isa, n) == LET o == Ops(isa)[n]
                 IN [op |-> n, isa |-> isa, k |-> o.k, imm |-> o.imm, dir |-> o.dir,
                     idx |-> o.idx, ext |-> o.ext]

VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ \A isa \in {6809, 6309} : \A n \in Mnemonics(isa) : PrintT("@@" \o ToJson(Entry(isa, n)))
        /\ done' = TRUE
Spec == Init /\ [][Next]_done
==============================================================================
