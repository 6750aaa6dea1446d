------------------------------ MODULE Outline ------------------------------
(* Outlines: the nodes of a glyph in all masters, and the UFO contours they  *)
(* become.  A node is [t, f, p] with p[master] = <<point>> or, for curves,   *)
(* <<point, handle 1, handle 2>>; a UFO point is [x, y, t, s, n].            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bit(f, b) == (f \div b) % 2
MastersOf(nodes) == IF nodes = <<>> THEN 1 ELSE Len(nodes[1].p)
Pt(q, t, s, n) == [x |-> q[1], y |-> q[2], t |-> t, s |-> s, n |-> n]

\* a closing curve ends in the start point, in every master: the start point is
\* then not a point of its own, else masters would differ in structure
Coincide(nodes, a, b) == \A m \in 1..MastersOf(nodes) : nodes[a].p[m][1] = nodes[b].p[m][1]

\* --- the converter as a machine that consumes one node per step -----------
Start == [done |-> <<>>, cur |-> <<>>, open |-> FALSE, q |-> FALSE, first |-> 0, last |-> 0]

\* lab[i] is the label of node i, "" for none
Close(st, nodes, lab) ==
    IF st.cur = <<>> THEN st.done
    ELSE LET c == st.cur
             z == c[Len(c)]
             first == CASE st.open -> c[1]
                        [] z.t = "off" -> [c[1] EXCEPT !.t = "qcurve"]
                        [] z.t = "move" -> c[1]
                        [] OTHER -> [c[1] EXCEPT !.t = "line"]
             merged == ~st.open /\ z.t = "curve" /\ Coincide(nodes, st.first, st.last)
             one == [z EXCEPT !.n = IF z.n # "" THEN z.n ELSE c[1].n]
         IN  Append(st.done, IF merged THEN <<one>> \o SubSeq(c, 2, Len(c) - 1)
                             ELSE <<first>> \o SubSeq(c, 2, Len(c)))

Feed(st, i, nodes, lab, m) ==
    LET n == nodes[i]
        p == n.p[m]
        s == Bit(n.f, 1)
    IN CASE n.t = "move" ->
              [done |-> Close(st, nodes, lab), cur |-> <<Pt(p[1], "move", s, lab[i])>>,
               open |-> Bit(n.f, 8) = 1, q |-> FALSE, first |-> i, last |-> i]
         [] n.t = "line" ->
              [st EXCEPT !.cur = Append(@, Pt(p[1], IF st.q THEN "qcurve" ELSE "line", s, lab[i])),
                         !.q = FALSE, !.last = i]
         [] n.t = "qcurve" ->
              [st EXCEPT !.cur = Append(@, Pt(p[1], "off", 0, lab[i])), !.q = TRUE, !.last = i]
         [] n.t = "curve" ->
              [st EXCEPT !.cur = @ \o <<Pt(p[2], "off", 0, ""), Pt(p[3], "off", 0, ""), Pt(p[1], "curve", s, lab[i])>>,
                         !.q = FALSE, !.last = i]

NoLabels(nodes) == [i \in 1..Len(nodes) |-> ""]
LContours(nodes, lab, m) ==
    Close(FoldLeft(LAMBDA st, i : Feed(st, i, nodes, lab, m), Start, [i \in 1..Len(nodes) |-> i]), nodes, lab)
Contours(nodes, m) == LContours(nodes, NoLabels(nodes), m)

\* the label pairs (lost, kept) where start and closing node are merged and both have one
Merged(nodes, lab) ==
    LET starts == {i \in 1..Len(nodes) : nodes[i].t = "move"}
        End(i) == CHOOSE j \in i..Len(nodes) : /\ \A k \in i + 1..j : k \notin starts
                                               /\ j = Len(nodes) \/ j + 1 \in starts
    IN {<<lab[i], lab[End(i)]>> : i \in {i \in starts :
           /\ Bit(nodes[i].f, 8) = 0 /\ End(i) # i /\ nodes[End(i)].t = "curve"
           /\ Coincide(nodes, i, End(i)) /\ lab[i] # "" /\ lab[End(i)] # ""}}

Plain(pt) == <<pt.x, pt.y, pt.t, pt.s>>
PlainContours(cs) == [i \in DOMAIN cs |-> [j \in DOMAIN cs[i] |-> Plain(cs[i][j])]]

\* --- what both mean, drawn: [open, start, segments <<type, points>>] ------
DropDegenerate(p) ==
    IF ~p.open /\ p.segs # <<>>
    THEN LET z == p.segs[Len(p.segs)]
             before == IF Len(p.segs) = 1 THEN p.start
                       ELSE LET y == p.segs[Len(p.segs) - 1][2] IN y[Len(y)]
         IN IF z[1] = "line" /\ z[2][1] = before THEN [p EXCEPT !.segs = SubSeq(@, 1, Len(@) - 1)] ELSE p
    ELSE p

RECURSIVE SourceSegs(_, _, _, _, _)
SourceSegs(nodes, m, i, offs, acc) ==
    IF i > Len(nodes) THEN <<offs, acc>>
    ELSE LET n == nodes[i]
             p == n.p[m]
         IN CASE n.t = "line" -> SourceSegs(nodes, m, i + 1, <<>>, Append(acc, <<IF offs = <<>> THEN "line" ELSE "qcurve", Append(offs, p[1])>>))
              [] n.t = "qcurve" -> SourceSegs(nodes, m, i + 1, Append(offs, p[1]), acc)
              [] n.t = "curve" -> SourceSegs(nodes, m, i + 1, <<>>, Append(acc, <<"curve", <<p[2], p[3], p[1]>>>>))
\* nodes of one contour, the first is a move
SourcePath(nodes, m) ==
    LET st == nodes[1].p[m][1]
        r == SourceSegs(Tail(nodes), m, 1, <<>>, <<>>)
        open == Bit(nodes[1].f, 8) = 1
        segs == r[2]
        at == IF segs = <<>> THEN st ELSE LET y == segs[Len(segs)][2] IN y[Len(y)]
    IN [open |-> open, start |-> st,
        segs |-> IF open \/ (segs = <<>> /\ r[1] = <<>>) THEN segs
                 ELSE IF r[1] # <<>> THEN Append(segs, <<"qcurve", Append(r[1], st)>>)
                 ELSE IF at # st THEN Append(segs, <<"line", <<st>>>>) ELSE segs]
SourceContours(nodes) ==
    FoldLeft(LAMBDA acc, n : IF n.t = "move" THEN Append(acc, <<n>>)
                             ELSE [acc EXCEPT ![Len(acc)] = Append(@, n)], <<>>, nodes)

RECURSIVE UfoSegs(_, _, _, _)
UfoSegs(pts, i, offs, acc) ==
    IF i > Len(pts) THEN acc
    ELSE LET q == <<pts[i].x, pts[i].y>>
         IN IF pts[i].t = "off" THEN UfoSegs(pts, i + 1, Append(offs, q), acc)
            ELSE UfoSegs(pts, i + 1, <<>>, Append(acc, <<pts[i].t, Append(offs, q)>>))
UfoPath(c) ==
    IF c[1].t = "move" THEN [open |-> TRUE, start |-> <<c[1].x, c[1].y>>, segs |-> UfoSegs(c, 2, <<>>, <<>>)]
    ELSE DropDegenerate([open |-> FALSE, start |-> <<c[1].x, c[1].y>>,
                         segs |-> UfoSegs(Tail(c) \o <<c[1]>>, 1, <<>>, <<>>)])
=============================================================================
