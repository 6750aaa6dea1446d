---------------------------- MODULE MC_Kerning ----------------------------
(* All tables of two kerning classes over three glyphs, their side flags and *)
(* key glyphs, and the kerning pairs of two glyphs: what is written resolves *)
(* (by the rules of UFO: glyph before group) to the stored kerning, although *)
(* zero pairs that override nothing are left out.                            *)
EXTENDS Kerning, Json
CONSTANTS Glyphs2, Vals, Flags2, Emit
VARIABLES F, ps, gs
Order == <<"A", "B", "C">>
G(n, k) == [n |-> n, key |-> k]
\* class contents: every subset in one order, with no or one key glyph
Contents(S) == UNION {{[i \in 1..Cardinality(T) |-> G(SetToSeq(T)[i], SetToSeq(T)[i] = k)] : k \in T \cup {"-"}} : T \in SUBSET S}
KernOf == [1..3 -> Vals \cup {99}]
Kern(f) == Cat(LAMBDA i : IF f[i] = 99 THEN <<>> ELSE <<<<i - 1, <<f[i]>>>>>>, 3)
Font(c1, c2, f1, f2, ka, kb) ==
    << [k |-> "klass", v |-> [name |-> "_a", kind |-> "kern", glyphs |-> c1]],
       [k |-> "klass", v |-> [name |-> "_b", kind |-> "kern", glyphs |-> c2]],
       [k |-> "classflags", v |-> <<<<"_a", f1, 0>>, <<"_b", f2, 0>>>>],
       [k |-> "glyph", v |-> [name |-> "A", nodes |-> <<>>, adv |-> <<<<1, 0>>>>, kern |-> Kern(ka)]],
       [k |-> "glyph", v |-> [name |-> "B", nodes |-> <<>>, adv |-> <<<<2, 0>>>>, kern |-> Kern(kb)]],
       [k |-> "glyph", v |-> [name |-> "C", nodes |-> <<>>, adv |-> <<<<3, 0>>>>]] >>
State(c) == LET s == Consumed(c) IN <<Pairs(s, Order, 1, FALSE), <<KernGroups(s, 1, Order, FALSE), KernGroups(s, 2, Order, FALSE)>>>>
None3 == [i \in 1..3 |-> 99]
Init == \E c1 \in Contents({"A", "B"}), c2 \in Contents({"A", "B", "C"}), f1 \in {1024, 3072}, f2 \in Flags2,
           ka \in KernOf, kb \in IF Glyphs2 THEN KernOf ELSE {None3} :
           LET f == Font(c1, c2, f1, f2, ka, kb)
               d == State(f)
           IN
              /\ F = f
              /\ ps = d[1]
              /\ gs = d[2]
Next == Emit /\ PrintT(<<"FONT", ToJson(F)>>) /\ UNCHANGED <<F, ps, gs>>
Spec == Init /\ [][Next]_<<F, ps, gs>>

GroupOf(s, g) == LET S == {i \in DOMAIN gs[s] : g \in Range(gs[s][i][2])}
                 IN IF S = {} THEN "-" ELSE gs[s][CHOOSE i \in S : TRUE][1]
Val(p, l, r) == LET S == {i \in DOMAIN p : p[i].l = l /\ p[i].r = r}
                IN IF S = {} THEN 99 ELSE p[CHOOSE i \in S : TRUE].v
Lookup(p, a, b) ==
    LET g1 == GroupOf(1, a)
        g2 == GroupOf(2, b)
        vs == <<Val(p, a, b), Val(p, a, g2), Val(p, g1, b), Val(p, g1, g2), 0>>
    IN vs[CHOOSE i \in 1..5 : vs[i] # 99 /\ \A j \in 1..i - 1 : vs[j] = 99]
Written == SelectSeq(ps, LAMBDA p : p.v # 0 \/ p.exc)
Resolves == LET w == Written IN \A a, b \in Range(Order) : Lookup(w, a, b) = Lookup(ps, a, b)
\* no glyph is in two groups of a side, no address is used by two pairs
Disjoint == /\ \A s \in 1..2 : \A i, j \in DOMAIN gs[s] : i # j => Range(gs[s][i][2]) \cap Range(gs[s][j][2]) = {}
            /\ \A i, j \in DOMAIN ps : i # j => <<ps[i].l, ps[i].r>> # <<ps[j].l, ps[j].r>>
AllPairs == Len(ps) = FoldLeft(LAMBDA a, x : a + IF x.k = "glyph" /\ "kern" \in DOMAIN x.v THEN Len(x.v.kern) ELSE 0, 0, F)
=============================================================================
