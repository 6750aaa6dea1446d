-------------------------- MODULE MC_Designspace ---------------------------
(* Writers of fonts: up to MaxAxes axes with all numbers of mappings, the    *)
(* locations of the masters in any order, instances; what the designspace    *)
(* has to say of them.                                                       *)
EXTENDS Designspace, Json
CONSTANTS MaxAxes, MaxMasters, MaxMaps, MaxInst, Emit
VARIABLES F, todo
vars == <<F, todo>>
R(k, v) == [k |-> k, v |-> v]
Corner(i) == [a \in 1..4 |-> ((i * (a + 1) * 137) % 1001)]
Pair(a, i) == <<((a * 7 + i * (5 - 2 * a)) * 10) - 30, (i - 1) * 90 + a>>
Pairs(n) == [i \in 1..40 |-> IF i <= 10 * n THEN Pair(((i - 1) \div 10) + 1, ((i - 1) % 10) + 1) ELSE <<0, 0>>]
Names == <<"Weight", "Width", "Optical Size", "Serif">>
\* an axis may come with a name of its own
AxisName(a, own) == IF own THEN "My axis" \o ToString(a) ELSE Names[a]
Init == /\ \E n \in 1..MaxMasters, a \in 1..MaxAxes, own \in BOOLEAN, k \in 0..MaxInst :
             \E c \in [1..a -> 0..MaxMaps], named \in 0..n :
                /\ F = <<R("masters", n)>> \o [i \in 1..named |-> R("mastername", "M" \o ToString(i))]
                       \o <<R("axiscount", a)>> \o [i \in 1..a |-> R("axis", AxisName(i, own))]
                       \o <<R("mapcounts", [i \in 1..4 |-> IF i <= a THEN c[i] ELSE 0]), R("maps", Pairs(a))>>
                       \o (IF k = 0 THEN <<>>
                           ELSE <<R("instances", [i \in 1..k |-> [name |-> "I" \o ToString(i), loc |-> Corner(i + 20)]])>>)
                /\ todo = 1..n
Next == /\ todo # {}
        /\ \E i \in todo : /\ F' = Append(F, R("location", [index |-> i, loc |-> Corner(i)]))
                           /\ todo' = todo \ {i}
                           /\ (Emit /\ todo' = {}) => PrintT(<<"FONT", ToJson(F')>>)
Spec == Init /\ [][Next]_vars
\* what is written for the font
Written(f) ==
    [axes |-> [a \in DOMAIN Axes(f) |-> [name |-> Axes(f)[a], tag |-> IF Tag(Axes(f)[a]) = "" THEN "MYAX" ELSE Tag(Axes(f)[a]),
                  map |-> Axis(f, a).map, min |-> Axis(f, a).min, max |-> Axis(f, a).max, def |-> Axis(f, a).min,
                  labels |-> Axis(f, a).labels]],
     sources |-> [m \in 1..Masters(f) |-> [file |-> ToString(m), loc |-> SetToSeq(SourceLoc(f, m)), name |-> NameOf(f, m)]],
     instances |-> [i \in DOMAIN Instances(f) |-> [name |-> Instances(f)[i].name, loc |-> SetToSeq(InstanceLoc(f, i))]]]
Files(f) == [m \in 1..Masters(f) |-> ToString(m)]
Done == todo = {}
Swap(s, i, j) == [k \in DOMAIN s |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
Accepts == Done => (IF Masters(F) = 1 THEN DesignVerdict(F, <<>>, <<>>) = "ok" /\ DesignVerdict(F, <<Written(F)>>, Files(F)) # "ok"
                    ELSE DesignVerdict(F, <<Written(F)>>, Files(F)) = "ok" /\ DesignVerdict(F, <<>>, <<>>) # "ok")
\* it rejects masters that change places, and axes that do
Rejects == (Done /\ Masters(F) > 1) =>
    /\ \A i, j \in 1..Masters(F) : i < j =>
          DesignVerdict(F, <<[Written(F) EXCEPT !.sources = Swap(@, i, j)]>>, Files(F)) # "ok"
    /\ \A i, j \in DOMAIN Axes(F) : i < j => DesignVerdict(F, <<[Written(F) EXCEPT !.axes = Swap(@, i, j)]>>, Files(F)) # "ok"
    /\ \A i, j \in DOMAIN Instances(F) :
          i < j => DesignVerdict(F, <<[Written(F) EXCEPT !.instances = Swap(@, i, j)]>>, Files(F)) # "ok"
\* the order of the location records does not matter
Sorted == (Done /\ Masters(F) > 1) =>
    \A m \in 1..Masters(F) : Place(F, m).loc = Corner(m)
=============================================================================
