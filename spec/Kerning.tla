------------------------------ MODULE Kerning ------------------------------
(* Glyph classes, kerning groups and kerning.  A class is [name, kind        *)
(* ("ot", "kern", "metrics"), glyphs: <<[n, key]>>, flags].                  *)
EXTENDS Convert
Side(s) == IF s = 1 THEN 1024 ELSE 2048
GroupName(s, c) == (IF s = 1 THEN "public.kern1." ELSE "public.kern2.") \o c.name
\* key glyphs first, else the stored order
Members(c) == LET K == SelectSeq(c.glyphs, LAMBDA x : x.key) \o SelectSeq(c.glyphs, LAMBDA x : ~x.key)
              IN [i \in DOMAIN K |-> K[i].n]
Present(c, order, minimal) ==
    IF minimal THEN SelectSeq(Members(c), LAMBDA n : n \in Range(order)) ELSE Members(c)
\* <<key glyph>>, or <<>> if the class has none
KeyGlyph(c, order) ==
    LET keys == SelectSeq(c.glyphs, LAMBDA x : x.key)
        here == SelectSeq(keys, LAMBDA x : x.n \in Range(order))
        none == \A i \in DOMAIN c.glyphs : c.glyphs[i].n \notin Range(order)
        use == IF none THEN keys ELSE here
    IN IF use = <<>> THEN <<>> ELSE <<use[1].n>>
\* the stored side flags, 0 if there are none: such kerning classes have no effect
Flags(st, c) == LET f == SelectSeq(LastOf(st.font, "classflags", <<>>), LAMBDA x : x[1] = c.name)
                IN IF f = <<>> THEN 0 ELSE f[Len(f)][2]
Classes(st) == Sel(st.font, "klass")
KernClasses(st, s) == SelectSeq(Classes(st), LAMBDA c : c.kind = "kern" /\ Bit(Flags(st, c), Side(s)) = 1)

\* a glyph is in the first group of a side that lists it, and only there
RECURSIVE SideGroups(_, _, _, _, _, _)
SideGroups(cs, s, order, minimal, used, acc) ==
    IF cs = <<>> THEN acc
    ELSE LET all == Present(cs[1], order, minimal)
             mine == FoldLeft(LAMBDA a, n : IF n \in used \/ n \in Range(a) THEN a ELSE Append(a, n), <<>>, all)
         IN SideGroups(Tail(cs), s, order, minimal, used \cup Range(all),
                       IF mine = <<>> THEN acc ELSE Append(acc, <<GroupName(s, cs[1]), mine>>))
KernGroups(st, s, order, minimal) == SideGroups(KernClasses(st, s), s, order, minimal, {}, <<>>)
\* what the kerning refers to: the group whose key glyph it is, else the glyph
Address(st, s, g, order, groups) ==
    LET cs == SelectSeq(KernClasses(st, s), LAMBDA c : KeyGlyph(c, order) = <<g>>)
    IN IF cs = <<>> THEN g
       ELSE IF \E i \in DOMAIN groups : groups[i][1] = GroupName(s, cs[1]) THEN GroupName(s, cs[1]) ELSE g
Grouped(groups) == UNION {Range(groups[i][2]) : i \in DOMAIN groups}

\* [l, r, v, exception] of all pairs in master m
Pairs(st, order, m, minimal) ==
    LET g1 == KernGroups(st, 1, order, minimal)
        g2 == KernGroups(st, 2, order, minimal)
        in1 == Grouped(g1)
        in2 == Grouped(g2)
        a1 == [i \in DOMAIN order |-> Address(st, 1, order[i], order, g1)]
        a2 == [i \in DOMAIN order |-> Address(st, 2, order[i], order, g2)]
    IN Cat(LAMBDA i : IF "kern" \notin DOMAIN st.glyphs[i].g THEN <<>>
                      ELSE LET k == st.glyphs[i].g.kern
                           IN [j \in DOMAIN k |->
                                 LET l == a1[i]
                                     r == a2[k[j][1] + 1]
                                 IN [l |-> l, r |-> r, v |-> k[j][2][m],
                                     exc |-> (l = order[i] /\ l \in in1) \/ (r = order[k[j][1] + 1] /\ r \in in2)]],
           Len(st.glyphs))

RECURSIVE Joined(_)
Joined(ns) == IF ns = <<>> THEN "" ELSE IF Len(ns) = 1 THEN ns[1] ELSE ns[1] \o " " \o Joined(Tail(ns))
FeaLine(name, ns) == "@" \o name \o " = [" \o Joined(ns) \o "];"
\* the class definitions that go to the feature code, in order
FeaClasses(st, order, o) ==
    Cat(LAMBDA i : LET c == Classes(st)[i]
                       ns == Present(c, order, o.minimal)
                   IN CASE c.kind = "ot" /\ o.move -> <<FeaLine(c.name, ns)>>
                        [] c.kind = "kern" /\ o.kern ->
                             Cat(LAMBDA s : IF Bit(Flags(st, c), Side(s)) = 1 THEN <<FeaLine(GroupName(s, c), ns)>> ELSE <<>>, 2)
                        [] OTHER -> <<>>, Len(Classes(st)))
Groups(st, order, o) ==
    KernGroups(st, 1, order, o.minimal) \o KernGroups(st, 2, order, o.minimal)
    \o Cat(LAMBDA i : LET c == Classes(st)[i]
                      IN IF c.kind = "metrics" \/ (c.kind = "ot" /\ ~o.move)
                         THEN <<<<c.name, Present(c, order, o.minimal)>>>> ELSE <<>>, Len(Classes(st)))

\* the lib keeps the order of the classes, and the key glyphs of the kerning groups
ClassOrder(st) ==
    Cat(LAMBDA i : LET c == Classes(st)[i]
                   IN IF c.kind # "kern" THEN <<c.name>>
                      ELSE Cat(LAMBDA s : IF Bit(Flags(st, c), Side(s)) = 1 THEN <<GroupName(s, c)>> ELSE <<>>, 2),
        Len(Classes(st)))
GroupKeys(st, order) ==
    UNION {UNION {IF Bit(Flags(st, c), Side(s)) = 1 /\ KeyGlyph(c, order) # <<>>
                  THEN {<<GroupName(s, c), KeyGlyph(c, order)[1]>>} ELSE {} : s \in {1, 2}}
           : c \in {c \in Range(Classes(st)) : c.kind = "kern"}}
GroupLibVerdict(st, u) ==
    LET there == {u.groups[i][1] : i \in DOMAIN u.groups}
        In(ns) == SelectSeq(ns, LAMBDA n : n \in there)
        Kern(n) == \E s \in {1, 2} : \E c \in Range(Classes(st)) : c.kind = "kern" /\ n = GroupName(s, c)
    IN CASE In(u.gorder) # In(ClassOrder(st)) -> "the order of the groups"
         [] {k \in Range(u.keys) : k[1] \in there /\ Kern(k[1])} # {k \in GroupKeys(st, u.order) : k[1] \in there} ->
              "the key glyphs of the kerning groups"
         [] OTHER -> "ok"

GroupsVerdict(st, u, o) ==
    LET exp == Groups(st, u.order, o)
    IN CASE {exp[i][1] : i \in DOMAIN exp} # {u.groups[i][1] : i \in DOMAIN u.groups} -> "groups are missing or added"
         [] Range(exp) # Range(u.groups) -> "the members of a group differ"
         [] Len(exp) # Len(u.groups) -> "groups are missing or added"
         [] SelectSeq(u.fea, LAMBDA l : l \in Range(u.defs)) # FeaClasses(st, u.order, o) ->
              "class definitions in the feature code"
         [] OTHER -> "ok"
KerningVerdict(st, u, m, o) ==
    LET exp == Pairs(st, u.order, m, o.minimal)
        all == {<<exp[i].l, exp[i].r, exp[i].v>> : i \in DOMAIN exp}
        must == {<<exp[i].l, exp[i].r, exp[i].v>> : i \in {i \in DOMAIN exp : exp[i].v # 0 \/ exp[i].exc}}
        out == Range(u.kerning)
    IN CASE \E p \in must : \A q \in out : <<p[1], p[2]>> # <<q[1], q[2]>> -> "a kerning pair is missing"
         [] \E q \in out : \A p \in all : <<p[1], p[2]>> # <<q[1], q[2]>> -> "a kerning pair is invented"
         [] ~(must \subseteq out) \/ ~(out \subseteq all) -> "a kerning value differs"
         [] Cardinality(out) # Len(u.kerning) -> "a kerning pair is there twice"
         [] OTHER -> "ok"
=============================================================================
