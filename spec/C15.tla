-------------------------------- MODULE C15 --------------------------------
EXTENDS JudgeBase, TTHints
\* --- the outline that the instructions of a glyph belong to -----------------
\* It is told as text: the width, the points of all contours, and components as
\* what is drawn by their base glyph, and their place.
Signed(x) == (IF x < 0 THEN "" ELSE "+") \o ToString(x)
\* thousandths as a signed decimal number
Real(x) ==
    LET a == IF x < 0 THEN -x ELSE x
        w == a \div 1000
        f == a % 1000
        h == IF f % 100 = 0 THEN ToString(f \div 100)
             ELSE IF f % 10 = 0 THEN (IF f < 100 THEN "0" ELSE "") \o ToString(f \div 10)
             ELSE (IF f < 10 THEN "00" ELSE IF f < 100 THEN "0" ELSE "") \o ToString(f)
    IN (IF x < 0 THEN "-" ELSE "+") \o ToString(w) \o (IF f = 0 THEN "" ELSE "." \o h)
Join(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
Letter == [off |-> "o", move |-> "m", line |-> "l", curve |-> "c", qcurve |-> "q"]
RECURSIVE Drawing(_, _)
Drawing(u, g) ==
    Join([i \in DOMAIN g.contours |->
            Join([j \in DOMAIN g.contours[i] |-> LET p == g.contours[i][j] IN Letter[p.t] \o ToString(p.x) \o Signed(p.y)]) \o "|"])
    \o Join([i \in DOMAIN g.comps |->
            LET c == g.comps[i]
            IN "[" \o Drawing(u, u.glyphs[Find(u.glyphs, c.base)])
               \o "(" \o Real(c.sx) \o "+0+0" \o Real(c.sy) \o Signed(c.x) \o Signed(c.y) \o ")]"])
OutlineText(u, g) == "w" \o ToString(g.width) \o Drawing(u, g)
\* g.hash is <<identification in the file, text, its digest if it is long>>
Hashed(u, g) ==
    IF g.prog = <<>> THEN g.hash = <<>>
    ELSE /\ g.hash # <<>>
         /\ LET t == OutlineText(u, g) IN IF Len(t) < 128 THEN g.hash[1] = t ELSE g.hash[2] = t /\ g.hash[1] = g.hash[3]
Code2(e, st, m) ==
    FirstBad([i \in DOMAIN st.glyphs |->
        LET g == e.ufos[m].glyphs[Find(e.ufos[m].glyphs, e.ufos[m].order[i])]
        IN IF g.ttform \notin {"none", IF e.base64 THEN "base64" ELSE "text"} THEN "the form of the instructions"
           ELSE IF g.prog # (IF "prog" \in DOMAIN st.glyphs[i].g /\ st.glyphs[i].g.prog # <<>> THEN <<st.glyphs[i].g.prog>> ELSE <<>>) THEN "binary instructions"
           ELSE IF ~Hashed(e.ufos[m], g) THEN "the instructions name another outline" ELSE "ok"])
Verdict(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE LET st == Consumed(e.font)
         IN IF Len(e.ufos) # Masters(e.font) THEN "the number of masters differs"
            ELSE LET v == FirstBad([m \in DOMAIN e.ufos |->
                    IF {e.ufos[m].glyphs[i].name : i \in DOMAIN e.ufos[m].glyphs} # Range(e.ufos[m].order)
                       \/ Len(e.ufos[m].order) # Len(st.glyphs) THEN "glyphs are missing"
                    ELSE LET w == ProgramsVerdict(st, e.ufos[m], m, e.stems, e.zones)
                         IN IF w # "ok" THEN w ELSE Code2(e, st, m)])
                 IN IF v # "ok" THEN v
                    ELSE IF ~e.tth.ok THEN "the export of hints fails"
                    ELSE IF ExportVerdict(st, e.tth.glyphs, e.tth.stems, e.tth.zones) # "ok"
                         THEN ExportVerdict(st, e.tth.glyphs, e.tth.stems, e.tth.zones)
                    ELSE IF \E i \in DOMAIN e.file : ~e.file[i].ok \/ Commands(e.file[i].glyphs) # Commands(e.tth.glyphs)
                         THEN "the written export of hints differs" ELSE "ok"
JInit == JI
JNext == JN(Verdict)
=============================================================================
