------------------------------ MODULE TTHints ------------------------------
(* TrueType hints: the stems and zones of a font, and the instructions of    *)
(* its glyphs, which refer to them and to the points of the outline.         *)
EXTENDS PSHints

\* --- stems ----------------------------------------------------------------
StemsOf(F) == LastOf(F, "stems", [v |-> <<>>, h |-> <<>>])
HasAt(s, i) == i \in DOMAIN s
\* the numbers of pixels that stem i of direction d may have: <<pixels, from this ppem on>>
Steps(F, d, i) ==
    LET p == LastOf(F, "stemppms", [v |-> <<>>, h |-> <<>>])[d]
        q == LastOf(F, "stemppms1", [v |-> <<>>, h |-> <<>>])[d]
    IN {<<6, StemsOf(F)[d][i].r6>>} \cup (IF HasAt(p, i) THEN {<<k + 1, p[i][k]>> : k \in 1..4} ELSE {})
       \cup (IF HasAt(q, i) THEN {<<1, q[i]>>} ELSE {})
\* at every threshold the highest number of pixels counts: {<<ppem, pixels>>}
Rounds(steps) == {<<s[2], s[1]>> : s \in {s \in steps : \A t \in steps : t[2] = s[2] => t[1] <= s[1]}}
StemOut(F, d, i) == [w |-> StemsOf(F)[d][i].w, round |-> Rounds(Steps(F, d, i))]

\* --- zones ----------------------------------------------------------------
ZonesOf(F) == LastOf(F, "zones", [t |-> <<>>, b |-> <<>>])
\* deltas count the bottom zones first; the last one for a size counts
DeltaIndex(F, d, i) == IF d = "b" THEN i - 1 ELSE Len(ZonesOf(F).b) + i - 1
ZoneDeltas(F, n) ==
    LET S == SelectSeq(LastOf(F, "zonedeltas", <<>>), LAMBDA x : x[1] = n)
    IN {<<S[k][2], S[k][3]>> : k \in {k \in DOMAIN S : \A j \in DOMAIN S : j > k => S[j][2] # S[k][2]}}
ZoneOut(F, d, i) == LET z == ZonesOf(F)[d][i] IN [pos |-> z.pos, w |-> z.w, delta |-> ZoneDeltas(F, DeltaIndex(F, d, i))]

\* --- written: a list of entries with a name and a direction ----------------
Side(es, d) == SelectSeq(es, LAMBDA e : e.d = d)
\* names are kept when they are not taken already; what has none may get any
Named(own, out) == /\ Len(own) = Len(out)
                   /\ \A i \in DOMAIN out : \A j \in 1..i - 1 : out[i] # out[j]
                   /\ \A i \in DOMAIN own : own[i] = "" \/ own[i] = out[i] \/ \E j \in DOMAIN out \ {i} : out[j] = own[i]
OwnName(own, es, i) == own[es[i].d][Cardinality({j \in 1..i : es[j].d = es[i].d})].name
EntriesVerdict(own, sides, es, What(_, _), what) ==
    CASE \E d \in sides : Len(Side(es, d)) # Len(own[d]) -> what \o "s are missing or added"
      [] {es[i].d : i \in DOMAIN es} \ sides # {} -> "the direction of a " \o what
      [] ~Named([i \in DOMAIN es |-> OwnName(own, es, i)], [i \in DOMAIN es |-> es[i].name]) -> "the names of the " \o what \o "s"
      [] \E d \in sides : \E i \in DOMAIN own[d] : Side(es, d)[i].what # What(d, i) -> "the values of a " \o what
      [] OTHER -> "ok"
AsStem(e) == [d |-> e.d, name |-> e.name, what |-> [w |-> e.w, round |-> Range(e.round)]]
AsZone(e) == [d |-> e.d, name |-> e.name, what |-> [pos |-> e.pos, w |-> e.w, delta |-> Range(e.delta)]]
StemsVerdict(F, es) ==
    EntriesVerdict(StemsOf(F), {"v", "h"}, [i \in DOMAIN es |-> AsStem(es[i])], LAMBDA d, i : StemOut(F, d, i), "stem")
ZonesVerdict(F, es) ==
    EntriesVerdict(ZonesOf(F), {"t", "b"}, [i \in DOMAIN es |-> AsZone(es[i])], LAMBDA d, i : ZoneOut(F, d, i), "zone")

\* --- instructions ---------------------------------------------------------
Code == [AlignTop |-> "alignt", AlignBottom |-> "alignb", SingleLinkH |-> "singleh", SingleLinkV |-> "singlev",
         DoubleLinkH |-> "doubleh", DoubleLinkV |-> "doublev", AlignH |-> "alignh", AlignV |-> "alignv",
         InterpolateH |-> "interpolateh", InterpolateV |-> "interpolatev", MDeltaH |-> "mdeltah", MDeltaV |-> "mdeltav",
         FDeltaH |-> "fdeltah", FDeltaV |-> "fdeltav"]
Align(a) == CASE a < 0 -> <<>> [] a = 1 -> <<"left">> [] a = 2 -> <<"right">> [] a = 3 -> <<"center">> [] a = 4 -> <<"double">>
              [] OTHER -> <<"round">>
Across(cmd) == IF cmd \in {"SingleLinkH", "DoubleLinkH"} THEN "h" ELSE "v"
Has(c, k) == k \in DOMAIN c
\* attributes of a written instruction as {<<name, value>>}; P says how a point is written
Attributes(c, P(_), stems, zones) ==
    {<<"code", Code[c.cmd]>>}
    \cup (IF Has(c, "pt") THEN {<<"point", P(c.pt)>>} ELSE {})
    \cup (IF Has(c, "pti") THEN {<<"point", P(c.pti)>>} ELSE {})
    \cup (IF Has(c, "pt1") THEN {<<"point1", P(c.pt1)>>, <<"point2", P(c.pt2)>>} ELSE {})
    \cup (IF Has(c, "stem") THEN (IF c.stem <= -2 THEN {<<"round", "true">>}
                                  ELSE IF c.stem = -1 THEN {}
                                  ELSE {<<"stem", stems[Across(c.cmd)][c.stem + 1]>>}) ELSE {})
    \cup (IF Has(c, "zone") THEN {<<"zone", zones[IF c.cmd = "AlignTop" THEN "t" ELSE "b"][c.zone + 1]>>} ELSE {})
    \cup (IF Has(c, "align") THEN {<<"align", a>> : a \in Range(Align(c.align))} ELSE {})
    \cup (IF Has(c, "shift") THEN {<<"delta", ToString(c.shift)>>, <<"ppm1", ToString(c.ppm1)>>, <<"ppm2", ToString(c.ppm2)>>}
          ELSE {})
Program(gl) == IF "tth" \in DOMAIN gl.g THEN gl.g.tth ELSE <<>>
NamesIn(es) == [d \in {"v", "h", "t", "b"} |-> LET S == Side(es, d) IN [i \in DOMAIN S |-> S[i].name]]
\* the name of node n of glyph i in the UFO, "" if the point has none
PointName(st, u, i, n, m) ==
    LET gl == st.glyphs[i]
        k == Find(u.glyphs, u.order[i])
        all == Counted(st, gl)
    IN IF n = all THEN "lsb" ELSE IF n = all + 1 THEN "rsb" ELSE Name(st, u, gl, k, n, m)
ProgramVerdict(st, u, i, m, stems, zones) ==
    LET gl == st.glyphs[i]
        g == u.glyphs[Find(u.glyphs, u.order[i])]
        p == Program(gl)
        fixed == ~IsComposite(gl.g) \/ PlainComposite(st, gl.g)
        exp == [j \in DOMAIN p |-> Attributes(p[j], LAMBDA n : PointName(st, u, i, n, m), NamesIn(stems), NamesIn(zones))]
        out == [j \in DOMAIN g.tth |-> Range(g.tth[j])]
        NoPoints(s) == {a \in s : a[1] \notin {"point", "point1", "point2"}}
    IN CASE g.tthbad -> "the program is not valid XML"
         [] Len(out) # Len(exp) -> "instructions are missing or added"
         [] \E j \in DOMAIN out : NoPoints(out[j]) # NoPoints(exp[j]) -> "the settings of an instruction differ"
         [] \E j \in DOMAIN out : Len(g.tth[j]) # Cardinality(out[j]) -> "an attribute is there twice"
         [] ~Unique(LabelsOf(g.contours)) -> "two points have the same name"
         [] fixed /\ \E j \in DOMAIN exp : \E a \in exp[j] : a[2] = "" /\ a[1] \in {"point", "point1", "point2"} ->
              "a hinted point has no name"
         [] fixed /\ out # exp -> "an instruction refers to another point"
         [] \E s \in Range(LabelsOf(g.contours)) : s \in {"lsb", "rsb"} -> "a point of the outline is named as a reserved one"
         [] OTHER -> "ok"
\* stems, zones: the entries written for the font, which give them their names
ProgramsVerdict(st, u, m, stems, zones) ==
    FirstBad([i \in DOMAIN st.glyphs |-> ProgramVerdict(st, u, i, m, stems, zones)])
\* the export of hints alone refers to points by their number
ExportVerdict(st, out, stems, zones) ==
    FirstBad([i \in DOMAIN st.glyphs |->
        LET p == Program(st.glyphs[i])
            o == IF st.glyphs[i].g.name \in DOMAIN out THEN out[st.glyphs[i].g.name] ELSE <<>>
            exp == [j \in DOMAIN p |-> Attributes(p[j], LAMBDA n : ToString(n), NamesIn(stems), NamesIn(zones))]
        IN IF [j \in DOMAIN o |-> Range(o[j])] # exp THEN "instructions in the export of hints" ELSE "ok"])
\* exported commands of glyphs, however their settings are ordered
Commands(g) == {<<n, [i \in DOMAIN g[n] |-> {g[n][i][k] : k \in DOMAIN g[n][i]}]>> : n \in DOMAIN g}
=============================================================================
