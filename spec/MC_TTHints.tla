---------------------------- MODULE MC_TTHints -----------------------------
(* Instruction lists of a glyph and of a composite of it, on outlines of     *)
(* which the first contour ends in its start point, or not.  The points that *)
(* instructions refer to get names, one each.                                *)
EXTENDS TTHints, Json
CONSTANTS Depth, Emit, Qs
VARIABLES out, pa, pb, named
vars == <<out, pa, pb, named>>
N(t, ps, f) == [t |-> t, f |-> f, p |-> <<ps>>]
Outlines == {
   <<N("move", <<<<0, 0>>>>, 0), N("line", <<<<90, 0>>>>, 0), N("curve", <<<<0, 0>>, <<9, 9>>, <<5, 5>>>>, 1),
     N("move", <<<<30, 70>>>>, 8), N("line", <<<<30, 50>>>>, 0)>>,
   <<N("move", <<<<0, 0>>>>, 0), N("qcurve", <<<<90, 0>>>>, 0), N("line", <<<<60, 30>>>>, 1)>> }
Font == <<[k |-> "stems", v |-> [v |-> <<[w |-> 80, name |-> "X", r6 |-> 90]>>,
                                 h |-> <<[w |-> 70, name |-> "Y", r6 |-> 80], [w |-> 75, name |-> "Z", r6 |-> 80]>>]],
          [k |-> "zones", v |-> [t |-> <<[pos |-> 500, w |-> 10, name |-> "x"], [pos |-> 700, w |-> 10, name |-> "H"]>>,
                                 b |-> <<[pos |-> 0, w |-> 10, name |-> "base"]>>]]>>
A == [name |-> "A", nodes |-> out, adv |-> <<<<500, 0>>>>, tth |-> pa]
B == [name |-> "B", nodes |-> <<>>, adv |-> <<<<500, 0>>>>, tth |-> pb,
      comps |-> <<[gid |-> 0, m |-> <<<<0, 0, 1000, 1000>>>>], [gid |-> 0, m |-> <<<<100, 0, 1000, 1000>>>>]>>]
F == Font \o <<[k |-> "glyph", v |-> A], [k |-> "glyph", v |-> B]>>
n == Len(out)
Cmd(k, p, q) ==
    CASE k = 1 -> [cmd |-> "AlignTop", pt |-> p, zone |-> (q % 2)]
      [] k = 2 -> [cmd |-> "SingleLinkH", pt1 |-> p, pt2 |-> q, stem |-> (q % 4) - 2, align |-> (p % 6) - 1]
      [] k = 3 -> [cmd |-> "MDeltaV", pt |-> p, shift |-> q - 3, ppm1 |-> 9, ppm2 |-> 9 + p]
      [] k = 4 -> [cmd |-> "InterpolateV", pti |-> p, pt1 |-> q, pt2 |-> n + 1, align |-> -1]
      [] k = 5 -> [cmd |-> "DoubleLinkV", pt1 |-> p, pt2 |-> q, stem |-> 0]
Init == out \in Outlines /\ pa = <<>> /\ pb = <<>> /\ named = {}
\* instructions of the composite name points of its components
Refs(c) == {c[x] : x \in {x \in {"pt", "pti", "pt1", "pt2"} : x \in DOMAIN c}}
OnPoint(all) == {IF p < n THEN p ELSE p - n : p \in {p \in all : p < 2 * n}}
Next == /\ Len(pa) + Len(pb) < Depth
        /\ \/ \E k \in 1..5, p \in 0..n + 1, q \in Qs :
                 /\ pa' = Append(pa, Cmd(k, p, q)) /\ UNCHANGED pb
                 /\ named' = named \cup {Carrier(out, x) : x \in {r \in Refs(Cmd(k, p, q)) : r < n}}
           \/ \E k \in {1, 3}, p \in 0..2 * n + 1 :
                 /\ pb' = Append(pb, Cmd(k, p, 0)) /\ UNCHANGED pa
                 /\ named' = named \cup {Carrier(out, x) : x \in OnPoint(Refs(Cmd(k, p, 0)))}
        /\ UNCHANGED out
        /\ Emit => PrintT(<<"FONT", ToJson(F')>>)
Spec == Init /\ [][Next]_vars

\* a writer that names exactly the points that are referred to
Cs == LContours(out, Names(out), 1)
Written == [i \in DOMAIN Cs |-> [j \in DOMAIN Cs[i] |-> [n |-> IF Cs[i][j].n \in named THEN "p" \o Cs[i][j].n ELSE ""]]]
AsFound == \A x \in 0..n - 1 : LabelAt(out, x, 1, Written) = IF Carrier(out, x) \in named THEN "p" \o Carrier(out, x) ELSE ""
AllThere == Range(LabelsOf(Written)) = {"p" \o x : x \in named} /\ Unique(LabelsOf(Written))
StemNames == [v |-> <<"X">>, h |-> <<"Y", "Z">>]
ZoneNames == [t |-> <<"x", "H">>, b |-> <<"base">>]
Es == <<[d |-> "v", name |-> "X"], [d |-> "h", name |-> "Y"], [d |-> "h", name |-> "Z"]>>
Zs == <<[d |-> "t", name |-> "x"], [d |-> "b", name |-> "base"], [d |-> "t", name |-> "H"]>>
Label(i, x) == IF i = 1 THEN (IF x = n THEN "lsb" ELSE IF x = n + 1 THEN "rsb" ELSE "p" \o Carrier(out, x))
               ELSE IF x = 2 * n THEN "lsb" ELSE IF x = 2 * n + 1 THEN "rsb"
               ELSE "p" \o Carrier(out, x % n) \o "-" \o ToString(x \div n)
Doing(g, i) == [j \in DOMAIN g.tth |-> SetToSeq(Attributes(g.tth[j], LAMBDA x : Label(i, x), StemNames, ZoneNames))]
st == Consumed(F)
u == [order |-> <<"A", "B">>,
      glyphs |-> <<[name |-> "A", contours |-> Written, tthbad |-> FALSE, tth |-> Doing(A, 1)],
                   [name |-> "B", contours |-> <<>>, tthbad |-> FALSE, tth |-> Doing(B, 2)]>>]
Accepts == ProgramsVerdict(st, u, 1, Es, Zs) = "ok"
=============================================================================
