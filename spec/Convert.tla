------------------------------ MODULE Convert ------------------------------
(* The conversion of a font, a list of records in file order, to one UFO per *)
(* master.  The font is consumed record by record; the state is the list of  *)
(* glyphs with the records attached to them and the font-level records.      *)
EXTENDS Outline, TLC

AttKinds == {"unicodes", "unicodes2", "links", "mark", "gcustomdata", "gnote", "gdef", "anchorsmm",
             "gguideprops", "mask", "maskmetrics", "maskmetricsmm", "image", "bitmaps"}
\* --- the machine: one record per step -------------------------------------
Empty == [glyphs |-> <<>>, font |-> <<>>]
Consume(st, r) ==
    CASE r.k = "glyph" -> [st EXCEPT !.glyphs = Append(@, [g |-> r.v, att |-> <<>>])]
      [] r.k \in AttKinds /\ st.glyphs # <<>> ->
            [st EXCEPT !.glyphs[Len(st.glyphs)].att = Append(@, r)]
      [] OTHER -> [st EXCEPT !.font = Append(@, r)]
Consumed(F) == FoldLeft(Consume, Empty, F)

\* --- reading the state ----------------------------------------------------
Sel(rs, k) == LET S == SelectSeq(rs, LAMBDA r : r.k = k) IN [i \in DOMAIN S |-> S[i].v]
HasK(rs, k) == \E i \in DOMAIN rs : rs[i].k = k
LastOf(rs, k, d) == LET S == Sel(rs, k) IN IF S = <<>> THEN d ELSE S[Len(S)]
Masters(F) == LET n == LastOf(F, "masters", 1) IN IF n < 1 THEN 1 ELSE n
Flatten2(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Nodes(g) == IF "nodes" \in DOMAIN g THEN g.nodes ELSE <<>>
Cat(f(_), n) == FoldLeft(LAMBDA a, i : a \o f(i), <<>>, [i \in 1..n |-> i])

\* --- names ----------------------------------------------------------------
\* the names the glyphs get: their own, or a new one if it is taken already
NamesOk(own, out) ==
    LET used == [i \in DOMAIN own |-> {out[j] : j \in 1..i - 1}]
    IN /\ Len(own) = Len(out)
       /\ \A i \in DOMAIN own : /\ out[i] \notin used[i]
                                /\ own[i] \notin used[i] \cup {""} => out[i] = own[i]
                                /\ out[i] # ""
OwnNames(st) == [i \in DOMAIN st.glyphs |-> st.glyphs[i].g.name]

\* --- one glyph in one master ----------------------------------------------
Codes(gl) == Cat(LAMBDA i : IF gl.att[i].k \in {"unicodes", "unicodes2"} THEN gl.att[i].v ELSE <<>>, Len(gl.att))
Anchors(gl, m) ==
    LET base == LastOf(gl.att, "gdef", <<>>)
        mm == LastOf(gl.att, "anchorsmm", <<>>)
    IN [i \in DOMAIN base |->
          LET at == IF i \in DOMAIN mm THEN mm[i][m] ELSE <<base[i].x, base[i].y>>
          IN [name |-> base[i].name, x |-> at[1], y |-> at[2]]]
Comps(gl, order, m) ==
    IF "comps" \notin DOMAIN gl.g THEN <<>>
    ELSE [i \in DOMAIN gl.g.comps |->
            LET c == gl.g.comps[i] IN [base |-> order[c.gid + 1], x |-> c.m[m][1], y |-> c.m[m][2],
                                       sx |-> c.m[m][3], sy |-> c.m[m][4],
                                       f |-> IF "f" \in DOMAIN c THEN c.f[m] ELSE <<0, 0>>]]
\* hue 0..255 of a colour with lightness 0.8 and saturation 0.76: channels * 10000
Chan(h) == LET n == h % 255 IN
    IF 2 * n < 85 THEN 6480 + (2 * 18240 * n + 255) \div 510
    ELSE IF 2 * n < 255 THEN 9520
    ELSE IF n < 170 THEN 6480 + (2 * 18240 * (170 - n) + 255) \div 510
    ELSE 6480
Mark(h) == <<Chan(h + 85), Chan(h), Chan(h + 170), 10000>>
\* the background image: place, size in units and pixels, and eight pixels a row
Image(gl) == LET v == LastOf(gl.att, "image", <<>>)
             IN IF ~HasK(gl.att, "image") THEN <<>>
                ELSE <<[o |-> v.o, u |-> v.u, p |-> <<8, Len(v.rows)>>, rows |-> v.rows, more |-> <<>>]>>
MaskContours(gl, m, minimal) ==
    IF minimal \/ ~HasK(gl.att, "mask") THEN <<>>
    ELSE PlainContours(Contours(LastOf(gl.att, "mask", [nodes |-> <<>>]).nodes, m))
MaskSize(gl, m) ==
    LET all == Cat(LAMBDA i : CASE gl.att[i].k = "maskmetrics" -> <<gl.att[i].v>>
                                [] gl.att[i].k = "maskmetricsmm" -> gl.att[i].v
                                [] OTHER -> <<>>, Len(gl.att))
    IN IF all = <<>> THEN gl.g.adv[m] ELSE all[m]

\* a glyph with the same name in the output
Find(us, n) == LET S == {i \in DOMAIN us : us[i].name = n} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* --- guides ---------------------------------------------------------------
\* slope t (tangent * 10000) as micro-degrees: the arc tangent comes as a table
Deg(atan, t) == atan[CHOOSE i \in DOMAIN atan : atan[i][1] = t][2]
Norm(a) == IF a < 0 THEN a + 360000000 ELSE a
Hundredth(c) == (20000 * c + 255) \div 510
GuideProp(props, d, i) ==
    LET ps == SelectSeq(props[d], LAMBDA p : p.index = i)
    IN [name |-> LET n == SelectSeq(ps, LAMBDA p : p.name # "") IN IF n = <<>> THEN "" ELSE n[Len(n)].name,
        color |-> LET n == SelectSeq(ps, LAMBDA p : p.color # <<>>)
                  IN IF n = <<>> THEN <<>>
                     ELSE LET k == n[Len(n)].color
                          IN <<Hundredth(k[1]), Hundredth(k[2]), Hundredth(k[3]), 10000>>]
NoProps == [h |-> <<>>, v |-> <<>>]
\* all guides, horizontal ones first: [d, pos, t, name, color]
Guides(g, props, m) ==
    Cat(LAMBDA k : LET d == <<"h", "v">>[k]
                   IN [i \in DOMAIN g[d] |->
                        [d |-> d, pos |-> g[d][i][m][1], t |-> g[d][i][m][2],
                         name |-> GuideProp(props, d, i).name, color |-> GuideProp(props, d, i).color]], 2)
\* a written guide goes through (x, y) at an angle of hundredths of a degree; a
\* missing coordinate stands for a guide along the other axis
SameGuide(e, u, atan) ==
    LET at == IF e.d = "h" THEN <<0, e.pos>> ELSE <<e.pos, 0>>
        a == Norm(IF e.d = "h" THEN Deg(atan, e.t) ELSE 90000000 - Deg(atan, e.t))
        Near(x, y) == x - y < 5001 /\ y - x < 5001
        ang == IF u.a = <<>> THEN (IF u.x = <<>> THEN 0 ELSE 90000000) ELSE u.a[1] * 10000
    IN /\ u.x = <<at[1]>> \/ (u.x = <<>> /\ e.d = "h" /\ e.t = 0)
       /\ u.y = <<at[2]>> \/ (u.y = <<>> /\ e.d = "v" /\ e.t = 0)
       /\ Near(ang, a) \/ Near(ang, a + 360000000) \/ Near(ang + 360000000, a)
       /\ u.name = e.name /\ u.color = e.color /\ u.extra = <<>>
SameGuides(es, us, atan) == /\ Len(es) = Len(us)
                            /\ \A i \in DOMAIN es : SameGuide(es[i], us[i], atan)
NoGuides == [h |-> <<>>, v |-> <<>>]
GlyphGuides(gl, m) ==
    Guides(IF "guides" \in DOMAIN gl.g THEN gl.g.guides ELSE NoGuides, LastOf(gl.att, "gguideprops", NoProps), m)
FontGuides(st, m) == Guides(LastOf(st.font, "guides", NoGuides), LastOf(st.font, "guideprops", NoProps), m)
GuidesVerdict(st, u, m, minimal, atan) ==
    CASE ~SameGuides(IF minimal THEN <<>> ELSE FontGuides(st, m), u.guides, atan) -> "font guides"
      [] \E i \in DOMAIN st.glyphs :
            LET k == Find(u.glyphs, u.order[i])
            IN \/ k = 0
               \/ ~SameGuides(IF minimal THEN <<>> ELSE GlyphGuides(st.glyphs[i], m), u.glyphs[k].guides, atan) ->
            "glyph guides"
      [] OTHER -> "ok"

PlainOf(c) == [i \in DOMAIN c |-> [j \in DOMAIN c[i] |-> <<c[i][j].x, c[i][j].y, c[i][j].t, c[i][j].s>>]]
LibList(u, k) == IF k \in DOMAIN u.lib THEN <<u.lib[k]>> ELSE <<>>
LastList(s, k) == IF HasK(s, k) THEN <<LastOf(s, k, "")>> ELSE <<>>

\* the clause that a written glyph breaks; color(s) reads a colour text
GlyphVerdict(gl, u, order, m, minimal) ==
    CASE u.width # gl.g.adv[m][1] \/ u.height # gl.g.adv[m][2] -> "advance"
      [] u.unicodes # Codes(gl) -> "code points"
      [] PlainOf(u.contours) # PlainContours(Contours(Nodes(gl.g), m)) -> "outline"
      [] [i \in DOMAIN u.comps |-> [base |-> u.comps[i].base, x |-> u.comps[i].x, y |-> u.comps[i].y,
                                    sx |-> u.comps[i].sx, sy |-> u.comps[i].sy, f |-> u.comps[i].f]] # Comps(gl, order, m) -> "components"
      [] \E i \in DOMAIN u.comps : u.comps[i].k # <<0, 0>> -> "component transformation"
      [] [i \in DOMAIN u.anchors |-> [name |-> u.anchors[i].name, x |-> u.anchors[i].x, y |-> u.anchors[i].y]]
            # Anchors(gl, m) -> "anchors"
      [] ~minimal /\ u.note # (IF HasK(gl.att, "gnote") THEN <<LastOf(gl.att, "gnote", "")>> ELSE <<>>) -> "note"
      [] ~minimal /\ u.mark # (IF HasK(gl.att, "mark") THEN Mark(LastOf(gl.att, "mark", 0)) ELSE <<>>) -> "mark colour"
      [] LibList(u, "com.fontlab.v5.userData") # LastList(gl.att, "gcustomdata") -> "custom data"
      [] ~minimal /\ ("com.fontlab.v5.bitmaps" \in DOMAIN u.lib) # HasK(gl.att, "bitmaps") -> "bitmaps"
      [] ~minimal /\ HasK(gl.att, "bitmaps") /\ u.ppms # LastOf(gl.att, "bitmaps", <<>>) -> "bitmaps"
      [] ~minimal /\ u.image # Image(gl) -> "background image"
      [] u.other # <<>> -> "something that is not in the font"
      [] OTHER -> "ok"

BackgroundVerdict(st, u, order, m, minimal) ==
    LET exp == [i \in DOMAIN st.glyphs |-> MaskContours(st.glyphs[i], m, minimal)]
    IN IF \E i \in DOMAIN st.glyphs :
            LET k == Find(u.bg, order[i])
            IN IF exp[i] = <<>> THEN k # 0
               ELSE \/ k = 0
                    \/ PlainOf(u.bg[k].contours) # exp[i]
                    \/ <<u.bg[k].width, u.bg[k].height>> # MaskSize(st.glyphs[i], m)
       THEN "mask" ELSE "ok"

\* all glyphs of the UFO of master m
GlyphsVerdict(st, u, m, minimal) ==
    LET own == OwnNames(st)
        order == u.order
    IN CASE u.problems # <<>> -> "the UFO is damaged"
         [] ~NamesOk(own, order) -> "glyph order or names"
         [] Len(u.glyphs) # Len(order) \/ {u.glyphs[i].name : i \in DOMAIN u.glyphs} # {order[i] : i \in DOMAIN order} ->
              "a glyph is missing, or there twice"
         [] OTHER ->
              LET v == [i \in DOMAIN order |->
                          GlyphVerdict(st.glyphs[i], u.glyphs[Find(u.glyphs, order[i])], order, m, minimal)]
                  bad == {i \in DOMAIN order : v[i] # "ok"}
              IN IF bad # {} THEN v[CHOOSE i \in bad : \A j \in bad : i <= j]
                 ELSE BackgroundVerdict(st, u, order, m, minimal)

\* what the font itself keeps in the lib of each UFO
FontLibKeys == {"com.fontlab.v5.userData", "com.fontlab.v5.metricsClassFlags", "public.groupOrder",
                "com.lucasfonts.vfblib.groupKeyGlyphs", "com.fontlab.v2.tth", "public.truetype.instructions",
                "com.fontlab.ttprogram"}
LibVerdict(st, u) ==
    CASE u.data # LastList(st.font, "customdata") -> "custom data of the font"
      [] Range(u.metrics) # Range(LastOf(st.font, "metricsflags", <<>>)) -> "flags of metrics classes"
      [] ~(Range(u.libkeys) \subseteq FontLibKeys) -> "lib data of unknown origin"
      [] OTHER -> "ok"

FirstBad(vs) == LET bad == {i \in DOMAIN vs : vs[i] # "ok"}
                IN IF bad = {} THEN "ok" ELSE vs[CHOOSE i \in bad : \A j \in bad : i <= j]
=============================================================================
