-------------------------------- MODULE C10 --------------------------------
(* A history of drawing in a font: the glyphs at the start, and every step    *)
(* with what was seen.  The state follows Pens; every reading is compared.    *)
EXTENDS JudgeBase, Pens
Says(c, w) == IF c THEN "ok" ELSE w
CompsSame(g, m, o) == Says(CompsOut(g, m) = o, "the components differ from those of the glyph")
\* drawn points (smooth flags are conveyed) or segments against the nodes of master m
Points(g, m, cs, smooth) ==
    LET exp == PathsOf(g.nodes, m)
        flags == SmoothAt(Contours(g.nodes, m))
    IN CASE Len(cs) # Len(exp) -> "contours are added or dropped"
         [] \E i \in DOMAIN cs : cs[i] = <<>> -> "an empty contour is drawn"
         [] \E i \in DOMAIN cs : ~WellFormed(cs[i]) -> "a contour is not well-formed"
         [] OTHER ->
            LET got == [i \in DOMAIN cs |-> PointPath(cs[i])]
            IN CASE [i \in DOMAIN got |-> got[i].open] # [i \in DOMAIN exp |-> exp[i].open] -> "open and closed contours are mixed up"
                 [] [i \in DOMAIN got |-> got[i].start] # [i \in DOMAIN exp |-> exp[i].start] -> "a contour has another start point"
                 [] got # exp -> "the segments differ"
                 [] smooth /\ ~g.guess /\ SmoothAt(cs) # flags -> "other points are smooth"
                 [] OTHER -> "ok"
Segments(g, m, cs) ==
    LET exp == PathsOf(g.nodes, m)
    IN CASE Len(cs) # Len(exp) -> "contours are added or dropped"
         [] \E i \in DOMAIN cs : ~SegOk(cs[i]) -> "a contour is not well-formed"
         [] OTHER ->
            LET got == [i \in DOMAIN cs |-> SegPath(cs[i])]
            IN CASE [i \in DOMAIN got |-> got[i].open] # [i \in DOMAIN exp |-> exp[i].open] -> "open and closed contours are mixed up"
                 [] [i \in DOMAIN got |-> got[i].start] # [i \in DOMAIN exp |-> exp[i].start] -> "a contour has another start point"
                 [] got # exp -> "the segments differ"
                 [] OTHER -> "ok"
Out(g, s) ==
    IF ~s.ok THEN "drawing fails"
    ELSE LET v == IF s.via = "seg" THEN Segments(g, s.m, s.cs) ELSE Points(g, s.m, s.cs, s.via # "direct")
         IN IF v # "ok" THEN s.via \o ": " \o v ELSE CompsSame(g, s.m, s.comps)
Look(names, gs, s) ==
    CASE ~s.ok -> "looking at the glyphs fails"
      [] s.keys # names \/ s.items # names -> "the names of the glyphs differ"
      [] \E i \in DOMAIN s.has : s.has[i][2] # (IF s.has[i][1] \in {names[k] : k \in DOMAIN names} THEN 1 ELSE 0) -> "glyphs appear or disappear"
      [] ~s.miss -> "a missing glyph is found"
      [] s.lens # [i \in DOMAIN gs |-> Len(SourceContours(gs[i].nodes))] -> "the number of contours differs"
      [] s.own # names -> "a glyph has another name"
      [] ~s.same -> "looking at glyphs changes the font"
      [] OTHER -> "ok"
NodesIn(s, M) == FoldLeft(LAMBDA a, c : a \o (IF s.via = "seg" THEN SegTaken(c, M) ELSE Taken(c, M)), <<>>, s.cs)
In(g, s, names, M) ==
    IF \E i \in DOMAIN s.comps : ~CompOk(s.comps[i], names)
    THEN [g |-> g, v |-> IF s.cs # <<>> THEN "ill-formed step"
                         ELSE Says(~s.ok, "a component that cannot be represented is drawn")]
    ELSE LET ns == NodesIn(s, M)
             cl == s.clear = 1
         IN CASE s.via # "seg" /\ \E i \in DOMAIN s.cs : ~WellFormed(s.cs[i]) -> [g |-> g, v |-> "ill-formed step"]
              [] ~InOk(g, s.m, cl, ns, s.comps) -> [g |-> g, v |-> "ill-formed step"]
              [] ~s.ok -> [g |-> g, v |-> "drawing into the glyph fails"]
              [] OTHER -> [g |-> [nodes |-> InM(g, s.m, M, cl, ns, s.comps).nodes, comps |-> InM(g, s.m, M, cl, ns, s.comps).comps,
                                  guess |-> (g.guess /\ ~(s.m = 1 /\ cl)) \/ s.via = "seg"],
                           v |-> "ok"]
Step(st, s, e) ==
    CASE st.v # "ok" -> st
      [] s.op = "look" -> [st EXCEPT !.v = Look(e.names, st.gs, s)]
      [] s.op = "out" -> [st EXCEPT !.v = Out(st.gs[s.g], s)]
      [] s.op = "shift" -> [st EXCEPT !.gs[s.g] = Shifted(@, s.m, s.dx, s.dy)]
      [] s.op = "empty" -> [st EXCEPT !.gs[s.g] = [nodes |-> <<>>, comps |-> <<>>, guess |-> FALSE],
                                      !.v = Says(s.ok, "a glyph cannot be emptied")]
      [] s.op = "save" -> [st EXCEPT !.v = Says(s.ok, "saving the font fails")]
      [] s.op = "in" -> LET r == In(st.gs[s.g], s, e.names, e.m) IN [gs |-> [st.gs EXCEPT ![s.g] = r.g], v |-> r.v]
\* Glyphs with one name: each is found under a key of its own, the first of them under its name.
Twins(e) ==
    LET n == Len(e.twins)
    IN CASE ~e.ok -> "looking at glyphs with one name fails"
         [] Len(e.keys) # n \/ e.order # e.keys \/ e.items # e.keys \/ e.has # n -> "glyphs with one name are added or dropped"
         [] Cardinality({e.keys[i] : i \in 1..n}) # n -> "glyphs share a key"
         [] \E i \in 1..n : e.keys[i] # e.twins[i] /\ \A k \in 1..(i - 1) : e.keys[k] # e.twins[i] -> "a glyph is not found under its name"
         [] e.xs # [i \in 1..n |-> i - 1] -> "another glyph is found"
         [] OTHER -> "ok"
Verdict(e) ==
    IF "twins" \in DOMAIN e THEN Twins(e)
    ELSE IF ~e.ok THEN "the font cannot be read"
    ELSE LET z == FoldLeft(LAMBDA a, s : [n |-> IF a.st.v = "ok" THEN a.n + 1 ELSE a.n, st |-> Step(a.st, s, e)],
                           [n |-> 0, st |-> [gs |-> [i \in DOMAIN e.glyphs |-> [nodes |-> e.glyphs[i].nodes, comps |-> e.glyphs[i].comps, guess |-> FALSE]],
                                             v |-> "ok"]], e.steps)
         IN IF z.st.v = "ok" THEN "ok" ELSE z.st.v \o " (step " \o ToString(z.n) \o ")"
JInit == JI
JNext == JN(Verdict)
=============================================================================
