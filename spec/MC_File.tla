------------------------------ MODULE MC_File ------------------------------
(* Exhaustive design check of the container over small entry sequences and   *)
(* every truncation point: writing then reading is the identity, and a       *)
(* truncated file is an error except between two entries, where the complete *)
(* entries before the cut are returned.                                      *)
EXTENDS VfbFile
CONSTANTS MaxEntries
VARIABLES es, cut, rd, phase
vars == <<es, cut, rd, phase>>
Ids == {2, 10, 1503, 1410, 32767}
Datas(id) == CASE id = 1503 -> {<<1, 0>>, <<2, 0>>}
               [] id = 1410 -> {Pad(8), Pad(10), Pad(12)}
               [] id = 2 -> {<<>>}
               [] OTHER -> {<<>>, <<0>>, <<2, 0, 0, 0>>, <<255, 255, 255, 255, 255>>}
Ent == UNION {{[id |-> i, data |-> d] : d \in Datas(i)} : i \in Ids}
Seqs == UNION {[1..k -> Ent] : k \in 0..MaxEntries}
File == FileBytes(7, es)
Init == /\ es \in {s \in Seqs : WellFormed(s)}
        /\ cut = -1 /\ rd = R0 /\ phase = "written"
\* a crash while saving, or damage afterwards, leaves a prefix
Cut == /\ phase = "written" /\ \E k \in 0..Len(File) : cut' = k
       /\ phase' = "read" /\ UNCHANGED <<es, rd>>
Read == /\ phase = "read" /\ rd.phase \notin {"done", "error"}
        /\ rd' = Step(SubSeq(File, 1, cut), rd, {}) /\ UNCHANGED <<es, cut, phase>>
Next == Cut \/ Read
Spec == Init /\ [][Next]_vars
\* entries completely in front of the cut
Prefix(k) == Len(FileBytes(7, SubSeq(es, 1, k)))
Final == phase = "read" /\ rd.phase \in {"done", "error"}
NeverInvents == rd.entries = SubSeq(es, 1, Len(rd.entries)) /\ Len(rd.entries) <= Len(es)
WholeFileReads == Final /\ cut = Len(File) => rd.phase = "done" /\ rd.entries = es
CutIsError == Final /\ cut < Len(File) =>
    IF \E k \in 0..Len(es) : Prefix(k) = cut
    THEN rd.phase = "done" /\ Prefix(Len(rd.entries)) = cut
    ELSE rd.phase = "error"
Advances == [][rd'.pos > rd.pos \/ rd'.phase \in {"done", "error"} \/ UNCHANGED rd]_vars
AgreesWithRun == Final => rd = RunReader(SubSeq(File, 1, cut), {})
=============================================================================
