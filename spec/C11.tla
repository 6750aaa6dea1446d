-------------------------------- MODULE C11 --------------------------------
(* Fonts with several masters: all that can differ, master by master.        *)
EXTENDS JudgeBase, Designspace
Kn == INSTANCE Kerning
Ps == INSTANCE PSHints
In == INSTANCE Info
Shape(u) == [i \in DOMAIN u.glyphs |->
               <<u.glyphs[i].name, [c \in DOMAIN u.glyphs[i].contours |->
                    [p \in DOMAIN u.glyphs[i].contours[c] |-> <<u.glyphs[i].contours[c][p].t, u.glyphs[i].contours[c][p].n>>]],
                 [c \in DOMAIN u.glyphs[i].comps |-> u.glyphs[i].comps[c].base],
                 [a \in DOMAIN u.glyphs[i].anchors |-> u.glyphs[i].anchors[a].name]>>]
One(e, st, m, k) ==
    LET u == e.ufos[m] IN
    CASE k = 1 -> GlyphsVerdict(st, u, m, e.opts.minimal)
      [] k = 2 -> GuidesVerdict(st, u, m, e.opts.minimal, e.atan)
      [] k = 3 -> Kn!KerningVerdict(st, u, m, e.opts)
      [] k = 4 -> Kn!GroupsVerdict(st, u, e.opts)
      [] k = 5 -> Ps!HintsVerdict(st, u, m, e.opts.pshints)
      [] k = 6 -> In!InfoVerdict(st.font, u.finfo, m, e.opts.minimal, e.opts.pshints)
      [] k = 7 -> IF u.order # e.ufos[1].order \/ Shape(u) # Shape(e.ufos[1]) THEN "the structure differs between masters" ELSE "ok"
\* the designspace and the UFOs agree on the name of the family
Family(e) ==
    LET i == e.ufos[1].finfo
        f == IF "familyName" \in DOMAIN i THEN i["familyName"] ELSE ""
    IN IF \E d \in Range(e.ds) : \E x \in Range(d.sources) \cup Range(d.instances) : f # "" /\ x.family # f
       THEN "another family name in the designspace" ELSE "ok"
Verdict(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE LET st == Consumed(e.font)
             n == Masters(e.font)
         IN IF Len(e.ufos) # n THEN "the number of UFOs differs"
            ELSE IF e.extra # <<>> THEN "other files are written"
            ELSE LET v == FirstBad([i \in 1..7 * n |-> One(e, st, ((i - 1) \div 7) + 1, ((i - 1) % 7) + 1)])
                 IN IF v # "ok" THEN v ELSE FirstBad(<<DesignVerdict(st.font, e.ds, e.names), Family(e)>>)
JInit == JI
JNext == JN(Verdict)
=============================================================================
