-------------------------------- MODULE Pens --------------------------------
(* Drawing out of and into the glyphs of a font.  The state of a glyph is its *)
(* nodes (as in Outline) and components; pens convey contours, either as UFO  *)
(* points [x, y, t, s] or as segment commands <<op, points>>.                 *)
EXTENDS Outline, TLC

\* coordinates that are drawn are thousandths; nodes are on whole units
\* (no coordinate lies in the middle of two)
Near(x) == (x + 500) \div 1000
Whole(c) == [i \in DOMAIN c |-> [c[i] EXCEPT !.x = Near(@), !.y = Near(@)]]

\* --- contours that are drawn in ------------------------------------------
On(c) == {i \in DOMAIN c : c[i].t # "off"}
\* a closed contour starts with its first on-curve point; between off-curve points
\* only, there is an implied one
Rotated(c) ==
    IF c[1].t = "move" THEN c
    ELSE IF On(c) # {} THEN LET i == CHOOSE i \in On(c) : \A j \in On(c) : i <= j
                            IN SubSeq(c, i, Len(c)) \o SubSeq(c, 1, i - 1)
    ELSE LET a == c[Len(c)]
             b == c[1]
         IN <<[x |-> (a.x + b.x) \div 2, y |-> (a.y + b.y) \div 2, t |-> "qcurve", s |-> 1]>> \o c
WellFormed(c) ==
    LET r == Rotated(c)
        Offs(i) == LET before == {j \in 1..i - 1 : r[j].t # "off"} IN i - 1 - (IF before = {} THEN 0 ELSE CHOOSE j \in before : \A k \in before : k <= j)
        Fits(t, n) == CASE t = "curve" -> n \in {0, 2} [] t = "line" -> n = 0 [] t = "qcurve" -> TRUE [] OTHER -> FALSE
    IN /\ c # <<>>
       /\ \A i \in 2..Len(r) : r[i].t # "off" => Fits(r[i].t, Offs(i))
       /\ r[1].t = "move" => r[Len(r)].t # "off"
       /\ r[1].t # "move" => Fits(r[1].t, Offs(Len(r) + 1))

Node(t, f, pts, M) == [t |-> t, f |-> f, p |-> [m \in 1..M |-> pts]]
At(q) == <<q.x, q.y>>
Put(acc, q, M) ==
    CASE q.t = "off" -> [acc EXCEPT !.off = Append(@, At(q))]
      [] q.t = "curve" /\ Len(acc.off) = 2 ->
            [off |-> <<>>, nodes |-> Append(acc.nodes, Node("curve", q.s, <<At(q)>> \o acc.off, M))]
      [] OTHER -> [off |-> <<>>, nodes |-> acc.nodes \o [i \in DOMAIN acc.off |-> Node("qcurve", 0, <<acc.off[i]>>, M)]
                                                     \o <<Node("line", q.s, <<At(q)>>, M)>>]
\* the nodes a drawn contour becomes
Taken(c, M) ==
    LET r == Rotated(Whole(c))
        first == Node("move", r[1].s + (IF r[1].t = "move" THEN 8 ELSE 0), <<At(r[1])>>, M)
        z == FoldLeft(LAMBDA a, q : Put(a, q, M), [off |-> <<>>, nodes |-> <<first>>], Tail(r))
        closed == IF r[1].t = "curve" /\ z.off # <<>> THEN Put(z, r[1], M) ELSE z
    IN closed.nodes \o [i \in DOMAIN closed.off |-> Node("qcurve", 0, <<closed.off[i]>>, M)]

\* --- segment commands: those of one contour -------------------------------
WholePts(ps) == [i \in DOMAIN ps |-> <<Near(ps[i][1]), Near(ps[i][2])>>]
SegTaken(cmds, M) ==
    LET open == cmds[Len(cmds)][1] = "endPath"
        One(k) == LET p == WholePts(k[2])
                      z == p[Len(p)]
                  IN CASE k[1] = "moveTo" -> <<Node("move", IF open THEN 8 ELSE 0, p, M)>>
                       [] k[1] = "lineTo" -> <<Node("line", 0, p, M)>>
                       [] k[1] = "curveTo" -> <<Node("curve", 0, <<z, p[1], p[2]>>, M)>>
                       [] k[1] = "qCurveTo" -> [i \in 1..Len(p) - 1 |-> Node("qcurve", 0, <<p[i]>>, M)] \o <<Node("line", 0, <<z>>, M)>>
                       [] OTHER -> <<>>
    IN FoldLeft(LAMBDA a, k : a \o One(k), <<>>, cmds)

\* --- what is drawn, whatever the words ------------------------------------
\* a contour of a point is neither open nor closed
Norm(p) == IF p.segs = <<>> THEN [p EXCEPT !.open = TRUE] ELSE p
PathsOf(nodes, m) == LET src == SourceContours(nodes) IN [i \in DOMAIN src |-> Norm(SourcePath(src[i], m))]
\* points drawn; a curve without handles is a line
Lines(c) == [i \in DOMAIN c |-> IF c[i].t \in {"curve", "qcurve"} /\ c[IF i = 1 THEN Len(c) ELSE i - 1].t # "off"
                                THEN [c[i] EXCEPT !.t = "line"] ELSE c[i]]
PointPath(c) == Norm(UfoPath(Lines(Rotated(c))))
\* segments drawn out: contours are <<cmds>>
SegPath(cmds) ==
    LET open == cmds[Len(cmds)][1] = "endPath"
        body == SubSeq(cmds, 2, Len(cmds) - 1)
        segs == [i \in DOMAIN body |-> <<CASE body[i][1] = "lineTo" -> "line" [] body[i][1] = "curveTo" -> "curve"
                                           [] body[i][1] = "qCurveTo" -> "qcurve" [] OTHER -> body[i][1], body[i][2]>>]
        st == cmds[1][2][1]
        at == IF segs = <<>> THEN st ELSE LET y == segs[Len(segs)][2] IN y[Len(y)]
    IN Norm([open |-> open, start |-> st,
             segs |-> IF open \/ at = st THEN segs ELSE Append(segs, <<"line", <<st>>>>)])
SegOk(cmds) == /\ Len(cmds) >= 2 /\ cmds[1][1] = "moveTo" /\ cmds[Len(cmds)][1] \in {"endPath", "closePath"}
               /\ \A i \in 2..Len(cmds) - 1 : cmds[i][1] \in {"lineTo", "curveTo", "qCurveTo"}
\* the positions of smooth points, contour by contour
SmoothAt(cs) == [i \in DOMAIN cs |-> {<<q.x, q.y>> : q \in {cs[i][j] : j \in {j \in DOMAIN cs[i] : cs[i][j].s = 1}}}]

\* --- the glyph --------------------------------------------------------------
\* a glyph is [nodes, comps]; a component [b, x, y, sx, sy] has lists of values per master
Comp(k, M) == [b |-> k.b, x |-> [m \in 1..M |-> Near(k.x)], y |-> [m \in 1..M |-> Near(k.y)],
               sx |-> [m \in 1..M |-> k.sx], sy |-> [m \in 1..M |-> k.sy]]
\* a component can be scaled and moved only, and needs a glyph
CompOk(k, names) == k.b \in {names[i] : i \in DOMAIN names} /\ k.xy = 0 /\ k.yx = 0
InM(g, m, M, cl, nodes, comps) ==
    IF m = 1
    THEN [nodes |-> (IF cl THEN <<>> ELSE g.nodes) \o nodes, comps |-> g.comps \o [i \in DOMAIN comps |-> Comp(comps[i], M)]]
    \* a further master: the contours and components that were drawn last have their places there
    ELSE LET a == Len(g.nodes) - Len(nodes)
             b == Len(g.comps) - Len(comps)
         IN [nodes |-> [i \in DOMAIN g.nodes |-> IF i <= a THEN g.nodes[i] ELSE [g.nodes[i] EXCEPT !.p[m] = nodes[i - a].p[m]]],
             comps |-> [i \in DOMAIN g.comps |-> IF i <= b THEN g.comps[i]
                          ELSE LET k == Comp(comps[i - b], M)
                               IN [g.comps[i] EXCEPT !.x[m] = k.x[m], !.y[m] = k.y[m], !.sx[m] = k.sx[m], !.sy[m] = k.sy[m]]]]
\* the same nodes in another master; smooth flags are those of the first master, they
\* may be guessed from the coordinates
SameShape(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].t = b[i].t /\ Bit(a[i].f, 8) = Bit(b[i].f, 8)
InOk(g, m, cl, nodes, comps) ==
    m = 1 \/ (/\ Len(nodes) <= Len(g.nodes) /\ Len(comps) <= Len(g.comps)
              /\ cl => Len(nodes) = Len(g.nodes)
              /\ LET a == Len(g.nodes) - Len(nodes)
                     b == Len(g.comps) - Len(comps)
                 IN /\ SameShape(nodes, SubSeq(g.nodes, a + 1, Len(g.nodes)))
                    /\ \A i \in DOMAIN comps : comps[i].b = g.comps[b + i].b)
Shifted(g, m, dx, dy) ==
    [g EXCEPT !.nodes = [i \in DOMAIN @ |-> [@[i] EXCEPT !.p[m] = [j \in DOMAIN @ |-> <<@[j][1] + dx, @[j][2] + dy>>]]]]
CompsOut(g, m) == [i \in DOMAIN g.comps |->
    <<g.comps[i].b, g.comps[i].sx[m], 0, 0, g.comps[i].sy[m], 1000 * g.comps[i].x[m], 1000 * g.comps[i].y[m]>>]
=============================================================================
