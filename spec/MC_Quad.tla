------------------------------- MODULE MC_Quad -------------------------------
(* The conversion as a process: for every outline of two masters, the         *)
(* contours of both are read, converted, reversed and drawn back, first into *)
(* the first master, then into the other one.  As conversion of a cubic       *)
(* segment, its handles become quadratic off-curve points.                    *)
EXTENDS MC_Outline, Quad
Conv(p) == [p EXCEPT !.segs = [i \in DOMAIN @ |-> IF @[i][1] = "curve" THEN <<"qcurve", @[i][2]>> ELSE @[i]]]
\* a path as the commands of a segment pen, every segment explicit
Cmds(p) == <<<<"moveTo", <<p.start>>>>>>
           \o [i \in DOMAIN p.segs |-> <<CASE p.segs[i][1] = "line" -> "lineTo" [] OTHER -> "qCurveTo", p.segs[i][2]>>]
           \o <<<<IF p.open THEN "endPath" ELSE "closePath", <<>>>>>>
Milli(c) == [i \in DOMAIN c |-> <<c[i][1], [j \in DOMAIN c[i][2] |-> <<1000 * c[i][2][j][1], 1000 * c[i][2][j][2]>>]>>]
\* all segments of a closed path are read, also a closing line of no length, so that masters do not differ
ReadPath(c) == IF Len(c) = 1 \/ c[1].t = "move" THEN [open |-> TRUE, start |-> <<c[1].x, c[1].y>>, segs |-> UfoSegs(Tail(c), 1, <<>>, <<>>)]
               ELSE [open |-> FALSE, start |-> <<c[1].x, c[1].y>>, segs |-> UfoSegs(Tail(c) \o <<c[1]>>, 1, <<>>, <<>>)]
Result(m) == FoldLeft(LAMBDA a, c : a \o SegTaken(Milli(Cmds(Conv(ReversePath(ReadPath(Lines(c)))))), 2), <<>>, st[m].done)
After == LET one == InM([nodes |-> nodes, comps |-> <<>>], 1, 2, TRUE, Result(1), <<>>)
         IN InM(one, 2, 2, TRUE, Result(2), <<>>)
Compatible == done => InOk(InM([nodes |-> nodes, comps |-> <<>>], 1, 2, TRUE, Result(1), <<>>), 2, TRUE, Result(2), <<>>)
Converted == done => \A m \in 1..2 :
    LET src == SourceContours(nodes)
        out == SourceContours(After.nodes)
    IN /\ Len(src) = Len(out)
       /\ \A i \in DOMAIN src : Drawn(Norm(SourcePath(out[i], m))) = Drawn(Norm(Conv(ReversePath(SourcePath(src[i], m)))))
\* reversing twice is the source, and keeps the start of closed paths
Twice == done => \A m \in 1..2 : \A i \in DOMAIN SourceContours(nodes) :
    LET p == SourcePath(SourceContours(nodes)[i], m) IN ReversePath(ReversePath(p)) = p
=============================================================================
