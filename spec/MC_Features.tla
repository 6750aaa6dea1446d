---------------------------- MODULE MC_Features ----------------------------
(* All texts of up to Depth lines with any line ends, written line by line.  *)
EXTENDS Features, Json
CONSTANTS Depth, Picks, Emit
Lines == JsonDeserialize("fealines.json")
Ends == {<<10>>, <<13>>, <<13, 10>>, <<>>}
VARIABLES n, t, ls, done
Init == n = 0 /\ t = <<>> /\ ls = <<>> /\ done = FALSE
Next == /\ n < Depth /\ ~done
        /\ \E k \in Picks, e \in Ends :
              \* a line end that is the start of one with two characters is another text
              /\ ~(t # <<>> /\ t[Len(t)] = CR /\ Lines[k] = <<>> /\ e # <<>> /\ e[1] = LF)
              /\ n' = n + 1 /\ t' = t \o Lines[k] \o e /\ done' = (e = <<>>)
              /\ ls' = IF e = <<>> /\ Lines[k] = <<>> THEN ls ELSE Append(ls, Lines[k])
              /\ Emit => PrintT(<<"TEXT", ToJson(t')>>)
Spec == Init /\ [][Next]_<<n, t, ls, done>>
\* reading is the inverse of writing line by line, apart from blank lines
Broken == LinesOf(t) = ls
Kept == /\ SelectSeq(Read(t), LAMBDA l : ~IsBlank(l)) = SelectSeq(ls, LAMBDA l : ~IsBlank(l))
        /\ \A i \in 1..Len(Read(t)) - 2 : ~(IsBlank(Read(t)[i]) /\ IsBlank(Read(t)[i + 1]) /\ IsBlank(Read(t)[i + 2]))
Join(s) == FoldLeft(LAMBDA a, l : a \o l \o <<LF>>, <<>>, s)
Stable == Read(Join(Read(t))) = Read(t)
\* a line is renamed once; the rest of it, and every other line, stays
Undo(l) == LET S == {i \in 1..Len(l) - 13 : SubSeq(l, i, i + 13) \in {Kern(1), Kern(2)}}
           IN Len(l) - 13 * Cardinality(S)
Renames == n = 0 \/ \A i \in DOMAIN ls : LET r == Renamed(ls[i])
                              IN /\ Renamed(r) = r
                                 /\ Undo(r) = Len(ls[i])
                                 /\ Pair(ls[i]) = <<>> => r = ls[i]
                                 /\ SubSeq(r, CodeEnd(r) + 1, Len(r)) = SubSeq(ls[i], CodeEnd(ls[i]) + 1, Len(ls[i]))
=============================================================================
