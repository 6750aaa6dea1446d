------------------------------ MODULE PSHints ------------------------------
(* PostScript hints: the stems of a glyph in one master, and the sets of     *)
(* stems that hint replacement makes active at points of the outline.        *)
(* A stem is <<direction, position, width>>; the widths -20 and -21 stand    *)
(* for ghost stems (top and bottom edges).                                   *)
EXTENDS Convert
NoHints == [h |-> <<>>, v |-> <<>>, masks |-> <<>>]
HintsOf(gl) == IF "hints" \in DOMAIN gl.g THEN gl.g.hints ELSE NoHints
LinksOf(gl) == LastOf(gl.att, "links", [x |-> <<>>, y |-> <<>>])
Stem(d, p, w) == IF w < 0 /\ w \notin {-20, -21} THEN <<d, p + w, -w>> ELSE <<d, p, w>>
\* a link binds two points of the outline; -1 and -2 make it a bottom or top edge
LinkStem(nodes, d, l, m) ==
    LET At(i) == nodes[i + 1].p[m][1][IF d = "h" THEN 2 ELSE 1]
        a == At(l[1])
    IN CASE l[2] = -1 -> <<d, a + 21, -21>>
         [] l[2] = -2 -> <<d, a, -20>>
         [] OTHER -> LET b == At(l[2]) IN IF b < a THEN <<d, b, a - b>> ELSE <<d, a, b - a>>
\* all stems of a direction: the masks count the stored ones first, then the links
Stems(gl, d, m) ==
    LET hs == HintsOf(gl)[d]
        ls == LinksOf(gl)[IF d = "h" THEN "y" ELSE "x"]
    IN [i \in DOMAIN hs |-> Stem(d, hs[i][m][1], hs[i][m][2])]
       \o [i \in DOMAIN ls |-> LinkStem(Nodes(gl.g), d, ls[i], m)]

\* --- hint replacement as a machine that consumes one mask per step ---------
MaskStart == [done |-> <<>>, node |-> 0, on |-> {}]
CloseSet(st) == IF st.on = {} THEN st.done
                ELSE IF \E j \in DOMAIN st.done : st.done[j].node = st.node
                \* a later set for the same node takes the place of the earlier one
                THEN [j \in DOMAIN st.done |-> IF st.done[j].node = st.node THEN [node |-> st.node, on |-> st.on] ELSE st.done[j]]
                ELSE Append(st.done, [node |-> st.node, on |-> st.on])
\* (kind, index): a stem of a direction is active, or a new set starts at a node
FeedMask(st, k, all) ==
    IF k[1] = "r" THEN [done |-> CloseSet(st), node |-> IF k[2] < 0 THEN -k[2] - 1 ELSE k[2], on |-> {}]
    ELSE IF k[2] + 1 \in DOMAIN all[k[1]] THEN [st EXCEPT !.on = @ \cup {all[k[1]][k[2] + 1]}]
    ELSE st
SetsOf(masks, all) ==
    CloseSet(IF masks = <<>> THEN [MaskStart EXCEPT !.on = Range(all["h"]) \cup Range(all["v"])]
             ELSE FoldLeft(LAMBDA st, k : FeedMask(st, k, all), MaskStart, masks))
HintSets(gl, m) == SetsOf(HintsOf(gl).masks, [d \in {"h", "v"} |-> Stems(gl, d, m)])

\* --- the points that carry the nodes --------------------------------------
Names(nodes) == [i \in DOMAIN nodes |-> ToString(i - 1)]
\* the node that carries node n (counted from 0) when the outline is written
Carrier(nodes, n) ==
    LET kept == {p \in Merged(nodes, Names(nodes)) : p[1] = ToString(n)}
    IN IF kept = {} THEN ToString(n) ELSE (CHOOSE p \in kept : TRUE)[2]
\* the name that the written outline gives to a node, "" if none
LabelAt(nodes, n, m, contours) ==
    LET exp == LContours(nodes, Names(nodes), m)
        me == Carrier(nodes, n)
        S == {<<i, j>> \in {<<i, j>> : i \in DOMAIN exp, j \in 1..FoldLeft(LAMBDA a, c : IF Len(c) > a THEN Len(c) ELSE a, 0, exp)} :
                j \in DOMAIN exp[i] /\ exp[i][j].n = me}
    IN IF S = {} THEN "" ELSE LET k == CHOOSE k \in S : TRUE
                              IN IF k[1] \in DOMAIN contours /\ k[2] \in DOMAIN contours[k[1]]
                                 THEN contours[k[1]][k[2]].n ELSE ""
LabelsOf(contours) == Cat(LAMBDA i : SelectSeq([j \in DOMAIN contours[i] |-> contours[i][j].n], LAMBDA s : s # ""),
                          Len(contours))
Unique(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
\* a composite counts the nodes of its components one after the other:
\* <<component, node>> counted from 1 and 0, or <<0, 0>>
RECURSIVE InComponent(_, _, _, _)
InComponent(st, comps, i, n) ==
    IF i > Len(comps) THEN <<0, 0>>
    ELSE LET k == Len(Nodes(st.glyphs[comps[i].gid + 1].g))
         IN IF n < k THEN <<i, n>> ELSE InComponent(st, comps, i + 1, n - k)
IsComposite(g) == "comps" \in DOMAIN g /\ g.comps # <<>>
\* composites of composites, and glyphs with both, do not tell whose nodes are counted
PlainComposite(st, g) ==
    Nodes(g) = <<>> /\ \A i \in DOMAIN g.comps : ~IsComposite(st.glyphs[g.comps[i].gid + 1].g)
\* the point name that stands for node n of a glyph
Name(st, u, gl, k, n, m) ==
    IF ~IsComposite(gl.g) THEN LabelAt(Nodes(gl.g), n, m, u.glyphs[k].contours)
    ELSE LET c == InComponent(st, gl.g.comps, 1, n)
             b == gl.g.comps[c[1]].gid + 1
             l == LabelAt(Nodes(st.glyphs[b].g), c[2], m, u.glyphs[Find(u.glyphs, u.order[b])].contours)
         IN IF c[1] = 0 \/ l = "" THEN "" ELSE l \o "-" \o ToString(c[1] - 1)
Counted(st, gl) == IF IsComposite(gl.g)
                   THEN FoldLeft(LAMBDA a, c : a + Len(Nodes(st.glyphs[c.gid + 1].g)), 0, gl.g.comps)
                   ELSE Len(Nodes(gl.g))

\* a written glyph has ps: <<[tag, stems: <<stem>>]>>
HintVerdict(st, u, i, m) ==
    LET gl == st.glyphs[i]
        k == Find(u.glyphs, u.order[i])
        g == u.glyphs[k]
        exp == HintSets(gl, m)
        fixed == ~IsComposite(gl.g) \/ PlainComposite(st, gl.g)
        inside == \A j \in DOMAIN exp : exp[j].node < Counted(st, gl)
        out == [j \in DOMAIN g.ps |-> <<g.ps[j].tag, Range(g.ps[j].stems)>>]
        want == [j \in DOMAIN exp |-> <<Name(st, u, gl, k, exp[j].node, m), exp[j].on>>]
    IN CASE Range([j \in DOMAIN out |-> out[j][2]]) # {exp[j].on : j \in DOMAIN exp} -> "the stems of the hint sets differ"
         [] Len(out) # Len(exp) -> "hint sets are missing or added"
         [] ~Unique(LabelsOf(g.contours)) -> "two points have the same name"
         [] fixed /\ inside /\ \E j \in DOMAIN want : want[j][1] = "" -> "the point of a hint set has no name"
         [] fixed /\ inside /\ Range(out) # Range(want) -> "a hint set starts at another point"
         [] fixed /\ inside /\ exp # <<>> /\ exp[1].node = 0 /\ want[1] # out[1] ->
              "the initial hint set is not the first"
         [] OTHER -> "ok"
HintsVerdict(st, u, m, on) ==
    FirstBad([i \in DOMAIN st.glyphs |->
        IF on THEN HintVerdict(st, u, i, m)
        ELSE LET g == u.glyphs[Find(u.glyphs, u.order[i])]
             IN IF g.ps # <<>> \/ "com.adobe.type.autohint.v2" \in DOMAIN g.lib THEN "hints are written although they are off"
                ELSE IF (\A j \in DOMAIN st.glyphs : "tth" \notin DOMAIN st.glyphs[j].g)
                        /\ LabelsOf(g.contours) # <<>> THEN "points are named for hints that are off"
                ELSE "ok"])
\* what the glyphs themselves tell: their stems by node, for every master
ToldVerdict(st, t, m) ==
    FirstBad([i \in DOMAIN st.glyphs |->
        LET exp == HintSets(st.glyphs[i], m)
            out == SelectSeq(t.sets[m][i], LAMBDA s : s[2] # <<>>)
        IN IF {<<out[j][1], Range(out[j][2])>> : j \in DOMAIN out} # {<<exp[j].node, exp[j].on>> : j \in DOMAIN exp}
              \/ Len(out) # Len(exp) THEN "a glyph tells other hint sets" ELSE "ok"])
=============================================================================
