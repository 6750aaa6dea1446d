---------------------------- MODULE MC_Assemble ----------------------------
(* All orders of a few glyphs and records that follow them: what is attached *)
(* where, and how the names are made distinct.  The finished fonts are       *)
(* printed and converted by the code.                                        *)
EXTENDS Convert, Json
CONSTANTS Size, Emit, Names, Kinds
VARIABLES recs, st, names
vars == <<recs, st, names>>
Pos == Len(recs) + 1
Value(k, i) ==
    CASE k \in {"unicodes", "unicodes2"} -> <<64 + i>>
      [] k \in {"gnote", "gcustomdata"} -> "text " \o ToString(i)
      [] k = "mark" -> 20 * i
      [] k = "image" -> [o |-> <<i, -i>>, u |-> <<2 * i, 3>>, rows |-> <<i>>]
      [] k = "gdef" -> <<[name |-> "top", x |-> i, y |-> 2 * i]>>
      [] k = "mask" -> [nodes |-> <<[t |-> "move", f |-> 8, p |-> << <<<<i, 0>>>> >>],
                                    [t |-> "line", f |-> 0, p |-> << <<<<0, i>>>> >>]>>]
      [] k = "maskmetrics" -> <<100 + i, 0>>
GlyphRec(n, i) == [k |-> "glyph", v |-> [name |-> n, nodes |-> <<>>, adv |-> << <<10 * i, 0>> >>,
                     comps |-> IF i = 1 THEN <<>> ELSE <<[gid |-> 0, m |-> << <<i, 0, 1000, 1000>> >>]>>]]
Push(r) == recs' = Append(recs, r) /\ st' = Consume(st, r)
Init == recs = <<>> /\ st = Empty /\ names = <<>>
\* the naming rule of the implementation, one of those that NamesOk permits
RECURSIVE Fresh(_, _, _)
Fresh(n, used, i) == IF n \o "#" \o ToString(i) \in used THEN Fresh(n, used, i + 1) ELSE n \o "#" \o ToString(i)
Distinct(n, used) == LET b == IF n = "" THEN "unnamed" ELSE n IN IF b \in used THEN Fresh(b, used, 0) ELSE b
Glyph == /\ Len(recs) < Size
         /\ \E n \in Names : /\ Push(GlyphRec(n, Pos))
                             /\ names' = Append(names, Distinct(n, {names[i] : i \in DOMAIN names}))
Attach == /\ recs # <<>> /\ Len(recs) < Size
          /\ \E k \in Kinds : /\ \A r \in Range(st.glyphs[Len(st.glyphs)].att) : r.k # k
                              /\ Push([k |-> k, v |-> Value(k, Pos)])
          /\ UNCHANGED names
Finish == /\ Len(recs) = Size /\ Emit /\ PrintT(<<"FONT", ToJson(recs)>>) /\ UNCHANGED vars
Next == Glyph \/ Attach \/ Finish
Spec == Init /\ [][Next]_vars

GlyphsBefore(i) == Cardinality({j \in 1..i : recs[j].k = "glyph"})
RightGlyph == \A i \in DOMAIN recs : recs[i].k # "glyph" =>
    \A g \in DOMAIN st.glyphs : (recs[i] \in Range(st.glyphs[g].att)) = (g = GlyphsBefore(i))
AllThere == Len(st.glyphs) = GlyphsBefore(Len(recs)) /\ st = Consumed(recs) /\ st.font = <<>>
NamesDistinct == NamesOk(OwnNames(st), names)
Lists == FoldLeft(LAMBDA a, g : a + Len(g.att), 0, st.glyphs) + Len(st.glyphs) = Len(recs)
=============================================================================
