------------------------------- MODULE MC_Cut -------------------------------
(* The reader as a state machine over every prefix of every small file: it   *)
(* ends after at most one step per four bytes, never invents a record, and   *)
(* ends without an error only between two records.                           *)
EXTENDS VfbFile
CONSTANT MaxEnt
Ids == {IdMasterCount, IdMMKernPair, 7, IdEnd}
Datas(id) == CASE id = IdMasterCount -> {<<1, 0>>, <<2, 0>>}
               [] id = IdMMKernPair -> {[k \in 1..8 |-> 0], [k \in 1..10 |-> 3], [k \in 1..12 |-> 4]}
               [] id = IdEnd -> {<<>>}
               [] OTHER -> {<<>>, <<9>>, <<0, 2, 0, 0>>}
Ent == UNION {{[id |-> i, data |-> d] : d \in Datas(i)} : i \in Ids}
VARIABLES es, cut, st, n
vars == <<es, cut, st, n>>
Whole == FileBytes(0, es)
Prefix == SubSeq(Whole, 1, cut)
Init == /\ es \in UNION {[1..k -> Ent] : k \in 0..MaxEnt}
        /\ WellFormed(es)
        /\ cut \in 0..(HeaderSize + 60) /\ cut <= Len(FileBytes(0, es))
        /\ st = R0 /\ n = 0
Next == st.phase \notin {"done", "error"} /\ st' = Step(Prefix, st, {}) /\ n' = n + 1 /\ UNCHANGED <<es, cut>>
Ends == n <= Len(es) + 2
Progress == st.phase = "entries" => st.pos > HeaderSize
\* bytes up to the end of record k
Upto(k) == HeaderSize + FoldLeft(LAMBDA a, j : a + Len(EntryBytes(es[j])), 0, [j \in 1..k |-> j])
NotInvented == Len(st.entries) <= Len(es) /\ \A k \in 1..Len(st.entries) : st.entries[k] = es[k]
OnlyBetween == st.phase = "done" => \E k \in 0..Len(es) : cut = Upto(k)
Rejected == st.phase = "error" => ~\E k \in 0..Len(es) : cut = Upto(k)
=============================================================================
