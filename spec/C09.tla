-------------------------------- MODULE C09 --------------------------------
(* The outlines of one glyph as the converter wrote them, for every master.  *)
EXTENDS JudgeBase, Outline
PlainOut(c) == [i \in DOMAIN c |-> [j \in DOMAIN c[i] |-> <<c[i][j].x, c[i][j].y, c[i][j].t, c[i][j].s>>]]
Structure(c) == [i \in DOMAIN c |-> [j \in DOMAIN c[i] |-> <<c[i][j].t, c[i][j].s>>]]
One(nodes, out) ==
    LET M == MastersOf(nodes)
        exp == [m \in 1..M |-> PlainContours(Contours(nodes, m))]
        bad == {m \in 1..M : PlainOut(out[m]) # exp[m]}
    IN IF Len(out) # M THEN "the number of masters differs"
       ELSE IF bad = {} THEN "ok"
       ELSE LET m == CHOOSE m \in bad : \A k \in bad : m <= k
                o == PlainOut(out[m])
            IN CASE Len(o) # Len(exp[m]) -> "contours are added or dropped"
                 [] \E i \in DOMAIN o : Len(o[i]) # Len(exp[m][i]) -> "points are added or dropped"
                 [] Structure(out[m]) = Structure(Contours(nodes, m)) -> "coordinates, start point or order differ"
                 [] \E i \in DOMAIN o : \E j \in DOMAIN o[i] : o[i][j][3] # exp[m][i][j][3] -> "segment types differ"
                 [] OTHER -> "smooth flags differ"
Verdict(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE LET v == One(e.nodes, e.out)
             w == One(e.mask, e.bg)
         IN IF v # "ok" THEN v ELSE IF w # "ok" /\ e.mask # <<>> THEN "mask: " \o w ELSE "ok"
JInit == JI
JNext == JN(Verdict)
=============================================================================
