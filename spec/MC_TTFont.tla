----------------------------- MODULE MC_TTFont -----------------------------
(* Fonts with TrueType stems and zones, built entry by entry: what is written *)
(* keeps the meaning of the thresholds and of the deltas.                    *)
EXTENDS TTHints, Json
CONSTANTS Depth, Emit
VARIABLES s, z, deltas, shift, cover, one
vars == <<s, z, deltas, shift, cover, one>>
Names3 == {"a", "b", ""}
Ppms == {<<9, 9, 5, 7>>, <<1, 2, 5, 5>>}
Stem3 == [w : {0, 80}, name : Names3, r6 : {5, 9}, p : Ppms, q : {1, 9}]
Zone3 == [pos : {0, 500}, w : {10}, name : Names3]
R(k, v) == [k |-> k, v |-> v]
SD(x) == [i \in DOMAIN x |-> [w |-> x[i].w, name |-> x[i].name, r6 |-> x[i].r6]]
\* the first `cover` stems of each direction have thresholds for 2 to 5 pixels
F == (IF cover = 0 THEN <<>>
      ELSE <<R("stemppms", [d \in {"v", "h"} |-> [i \in 1..(IF cover - 1 < Len(s[d]) THEN cover - 1 ELSE Len(s[d])) |-> s[d][i].p]])>>)
     \o <<R("stems", [d \in {"v", "h"} |-> SD(s[d])])>>
     \o (IF one THEN <<R("stemppms1", [d \in {"v", "h"} |-> [i \in DOMAIN s[d] |-> s[d][i].q]])>> ELSE <<>>)
     \o <<R("zones", z)>> \o (IF deltas = <<>> THEN <<>> ELSE <<R("zonedeltas", deltas)>>)
Size == Len(s.v) + Len(s.h) + Len(z.t) + Len(z.b) + Len(deltas)
Init == /\ s = [v |-> <<>>, h |-> <<>>] /\ z = [t |-> <<>>, b |-> <<>>] /\ deltas = <<>> /\ shift = [x \in {} |-> 0]
        /\ cover \in {0, 1, 2, 3} /\ one \in BOOLEAN
Emitting == Emit => PrintT(<<"FONT", ToJson(F')>>)
AddStem == /\ z.t \o z.b = <<>>
           /\ \E d \in {"v", "h"}, x \in Stem3 : s' = [s EXCEPT ![d] = Append(@, x)]
           /\ UNCHANGED <<z, deltas, shift>>
AddZone == /\ deltas = <<>>
           /\ \E d \in {"t", "b"}, x \in Zone3 : z' = [z EXCEPT ![d] = Append(@, x)]
           /\ UNCHANGED <<s, deltas, shift>>
AddDelta == /\ \E n \in 0..Len(z.t) + Len(z.b) - 1, p \in {10, 11}, v \in {-8, 1} :
                 /\ deltas' = Append(deltas, <<n, p, v>>)
                 /\ shift' = [k \in DOMAIN shift \cup {<<n, p>>} |-> IF k = <<n, p>> THEN v ELSE shift[k]]
            /\ UNCHANGED <<s, z>>
Next == Size < Depth /\ (AddStem \/ AddZone \/ AddDelta) /\ UNCHANGED <<cover, one>> /\ Emitting
Spec == Init /\ [][Next]_vars

\* the pixels of a stem at a size
Pixels(steps, p) == LET S == {x[1] : x \in {x \in steps : x[2] <= p}} IN IF S = {} THEN 0 ELSE CHOOSE a \in S : \A b \in S : b <= a
Flip(r) == {<<x[2], x[1]>> : x \in r}
Meaning == \A d \in {"v", "h"} : \A i \in DOMAIN s[d] :
              LET st == Steps(F, d, i) IN \A p \in 0..10 : Pixels(st, p) = Pixels(Flip(Rounds(st)), p)
OneEach == \A d \in {"v", "h"} : \A i \in DOMAIN s[d] :
              \A a, b \in Rounds(Steps(F, d, i)) : a[1] = b[1] => a = b
Deltas == \A d \in {"t", "b"} : \A i \in DOMAIN z[d] :
              LET n == DeltaIndex(F, d, i)
              IN ZoneDeltas(F, n) = {<<k[2], shift[k]>> : k \in {k \in DOMAIN shift : k[1] = n}}
AllDeltas == \A k \in DOMAIN shift : \E d \in {"t", "b"} : \E i \in DOMAIN z[d] : DeltaIndex(F, d, i) = k[1]
\* what a faithful writer writes is accepted, with any order of the directions
Seqd(S) == SetToSeq(S)
OutS(ds) == Cat(LAMBDA k : [i \in DOMAIN s[ds[k]] |-> [d |-> ds[k], name |-> ds[k] \o ToString(i) \o "x", w |-> s[ds[k]][i].w,
                                                  round |-> Seqd(Rounds(Steps(F, ds[k], i)))]], 2)
Own(es) == LET own == s IN
           [i \in DOMAIN es |-> LET n == OwnName(own, es, i)
                                IN IF n = "" \/ \E j \in 1..i - 1 : OwnName(own, es, j) = n THEN es[i] ELSE [es[i] EXCEPT !.name = n]]
Accepts == \A ds \in {<<"v", "h">>, <<"h", "v">>} : StemsVerdict(F, Own(OutS(ds))) = "ok"
Rejects == LET o == Own(OutS(<<"v", "h">>))
           IN /\ o # <<>> => StemsVerdict(F, Tail(o)) # "ok"
              /\ \A i \in DOMAIN o : StemsVerdict(F, [o EXCEPT ![i].w = @ + 1]) # "ok"
              /\ \A i \in DOMAIN o : StemsVerdict(F, [o EXCEPT ![i].d = IF @ = "v" THEN "h" ELSE "v"]) # "ok"
=============================================================================
