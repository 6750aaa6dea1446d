----------------------------- MODULE MC_Outline -----------------------------
(* All outlines of two masters with up to Size nodes: the contours the        *)
(* machine produces draw what the nodes draw, and have the same structure in *)
(* both masters.  Every finished outline is printed and replayed.            *)
EXTENDS Outline, TLC, Json
CONSTANTS Size, Emit, Flags
A == <<0, 0>>
B == <<50, 10>>
C == <<20, 70>>
Places == {<<A, A>>, <<B, C>>, <<A, B>>}
VARIABLES nodes, st, done
vars == <<nodes, st, done>>
None == NoLabels(nodes')
Init == nodes = <<>> /\ st = <<Start, Start>> /\ done = FALSE
Add(n) == /\ nodes' = Append(nodes, n)
          /\ st' = [m \in 1..2 |-> Feed(st[m], Len(nodes'), nodes', None, m)]
          /\ done' = FALSE
Go == ~done /\ Len(nodes) < Size
\* an open contour ends in an on-curve point (UFO has no other open contours)
Dangling == st[1].open /\ st[1].q
Move == Go /\ ~Dangling /\ \E f \in {0, 8}, w \in Places : Add([t |-> "move", f |-> f, p |-> [m \in 1..2 |-> <<w[m]>>]])
Line == Go /\ nodes # <<>> /\ \E f \in Flags, w \in Places : Add([t |-> "line", f |-> f, p |-> [m \in 1..2 |-> <<w[m]>>]])
\* a cubic segment cannot follow pending quadratic off-curve points
Curve == Go /\ nodes # <<>> /\ ~st[1].q /\ \E f \in Flags, w \in Places :
            Add([t |-> "curve", f |-> f, p |-> [m \in 1..2 |-> <<w[m], <<7, m>>, <<9, m>>>>]])
QCurve == Go /\ nodes # <<>> /\ \E w \in {<<B, C>>} : Add([t |-> "qcurve", f |-> 0, p |-> [m \in 1..2 |-> <<w[m]>>]])
Finish == /\ ~done /\ ~Dangling /\ nodes # <<>> /\ done' = TRUE /\ nodes' = nodes
          /\ st' = [m \in 1..2 |-> [st[m] EXCEPT !.done = Close(st[m], nodes, NoLabels(nodes)), !.cur = <<>>]]
          /\ (Emit => PrintT(<<"OUTLINE", ToJson(nodes)>>))
Next == Move \/ Line \/ Curve \/ QCurve \/ Finish
Spec == Init /\ [][Next]_vars

SamePath == done => \A m \in 1..2 :
    LET src == SourceContours(nodes)
        cs == st[m].done
    IN /\ Len(cs) = Len(src)
       /\ \A i \in 1..Len(src) :
             LET s == SourcePath(src[i], m)
                 u == UfoPath(cs[i])
             IN \/ u = s
                \* a closed contour of one point has no segments: it stays a move
                \/ Len(src[i]) = 1 /\ u = [s EXCEPT !.open = TRUE]
SameStructure == done =>
    [i \in DOMAIN st[1].done |-> [j \in DOMAIN st[1].done[i] |-> <<st[1].done[i][j].t, st[1].done[i][j].s>>]]
  = [i \in DOMAIN st[2].done |-> [j \in DOMAIN st[2].done[i] |-> <<st[2].done[i][j].t, st[2].done[i][j].s>>]]
\* the incremental machine and the function that judges the code agree
SameFunction == done => \A m \in 1..2 : st[m].done = Contours(nodes, m)
\* nothing is lost but merged closing nodes
Count == done => \A m \in 1..2 :
    LET pts == FoldLeft(LAMBDA a, c : a + Len(c), 0, st[m].done)
        src == FoldLeft(LAMBDA a, n : a + Len(n.p[m]), 0, nodes)
    IN src - Len(SourceContours(nodes)) <= pts /\ pts <= src
=============================================================================
