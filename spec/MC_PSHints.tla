---------------------------- MODULE MC_PSHints ----------------------------
(* Hint replacement over all mask lists up to a length, on outlines of two   *)
(* contours of which the first ends in its start point, or not.              *)
EXTENDS PSHints, Json
CONSTANTS Depth, Emit, Reps
VARIABLES out, lk, masks, st
vars == <<out, lk, masks, st>>
N(t, ps, f) == [t |-> t, f |-> f, p |-> <<ps>>]
Outlines == {
   <<N("move", <<<<0, 0>>>>, 0), N("line", <<<<90, 0>>>>, 0), N("curve", <<<<0, 0>>, <<9, 9>>, <<5, 5>>>>, 1),
     N("move", <<<<30, 70>>>>, 8), N("line", <<<<30, 50>>>>, 0)>>,
   <<N("move", <<<<0, 0>>>>, 0), N("qcurve", <<<<90, 0>>>>, 0), N("line", <<<<60, 30>>>>, 1),
     N("move", <<<<30, 70>>>>, 0), N("qcurve", <<<<30, 50>>>>, 0)>> }
Links == {[x |-> <<>>, y |-> <<>>], [x |-> <<<<1, 0>>>>, y |-> <<<<3, 4>>, <<2, -1>>>>]}
Hs == <<<<<<-10, 25>>>>>>
Vs == <<<<<<40, -30>>>>, <<<<500, -20>>>>>>
Gl(o, l, ms) == [g |-> [name |-> "A", nodes |-> o, adv |-> <<<<500, 0>>>>, hints |-> [h |-> Hs, v |-> Vs, masks |-> ms]],
                 att |-> <<[k |-> "links", v |-> l]>>]
Steps == {<<"h", 0>>, <<"h", 1>>, <<"h", 2>>, <<"v", 0>>, <<"v", 1>>} \cup {<<"r", n>> : n \in Reps \cup {-3}}
all == [d \in {"h", "v"} |-> Stems(Gl(out, lk, <<>>), d, 1)]
Init == out \in Outlines /\ lk \in Links /\ masks = <<>> /\ st = MaskStart
Next == /\ Len(masks) < Depth
        /\ \E s \in Steps : masks' = Append(masks, s) /\ st' = FeedMask(st, s, all)
        /\ UNCHANGED <<out, lk>>
        /\ Emit => PrintT(<<"FONT", ToJson(<<[k |-> "glyph", v |-> Gl(out, lk, masks').g], [k |-> "links", v |-> lk]>>)>>)
Spec == Init /\ [][Next]_vars

Node(k) == IF k < 0 THEN -k - 1 ELSE k
\* what is active at a node, read off the whole list: the stems between the last start of a
\* set at that node that activates something, and the next start
Ends(i) == IF \E j \in i + 1..Len(masks) : masks[j][1] = "r"
           THEN CHOOSE j \in i + 1..Len(masks) : masks[j][1] = "r" /\ \A k \in i + 1..j - 1 : masks[k][1] # "r"
           ELSE Len(masks) + 1
On(i) == {all[masks[j][1]][masks[j][2] + 1] : j \in {j \in i + 1..Ends(i) - 1 : masks[j][2] + 1 \in DOMAIN all[masks[j][1]]}}
StartsAt(n) == {i \in DOMAIN masks : masks[i][1] = "r" /\ Node(masks[i][2]) = n /\ On(i) # {}}
               \cup (IF n = 0 /\ On(0) # {} THEN {0} ELSE {})
Active(n) == IF StartsAt(n) = {} THEN {} ELSE On(CHOOSE i \in StartsAt(n) : \A j \in StartsAt(n) : j <= i)
Meaning == masks # <<>> =>
    LET sets == CloseSet(st)
    IN \A n \in 0..9 : LET S == {i \in DOMAIN sets : sets[i].node = n}
                       IN IF S = {} THEN Active(n) = {} ELSE Cardinality(S) = 1 /\ sets[CHOOSE i \in S : TRUE].on = Active(n)
Whole == /\ SetsOf(masks, all) = (IF masks = <<>> THEN <<[node |-> 0, on |-> Range(all["h"]) \cup Range(all["v"])]>> ELSE CloseSet(st))
\* every node has a point of its own, but for a start that the closing curve reaches
OwnPoints == LET cs == LContours(out, Names(out), 1)
                 ls == LabelsOf(cs)
             IN /\ Unique(ls)
                /\ \A n \in 0..Len(out) - 1 : Carrier(out, n) \in Range(ls)
                /\ \A a, b \in 0..Len(out) - 1 : a < b /\ Carrier(out, a) = Carrier(out, b)
                                                 => out[a + 1].t = "move" /\ out[b + 1].p[1][1] = out[a + 1].p[1][1]
\* a stem is never given as a ghost stem unless the source has one
Ghosts == \A d \in {"h", "v"} : \A s \in Range(all[d]) : s[3] < 0 => s[3] \in {-20, -21}
                                                                    /\ (s = <<"v", 500, -20>> \/ lk.y # <<>>)
=============================================================================
