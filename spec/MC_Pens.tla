------------------------------ MODULE MC_Pens ------------------------------
(* A glyph of two masters: contours are drawn into the first and, moved and   *)
(* in the same shape, into the second master, now or later, with or without  *)
(* what was there.  What is read back is what was drawn.                      *)
EXTENDS Pens, Json
CONSTANTS Points,      \* the contours drawn have up to so many points
          Depth, Emit, Small
M == 2
Types == {"line", "curve", "qcurve", "off"}
Spot(i) == [x |-> (<<0, 40, 40, 0, 20>>)[i] * 1000, y |-> (<<0, 0, 60, 60, 90>>)[i] * 1000]
\* every third point, and the last one, may fall on the first
Make(ts, s, back) == [i \in DOMAIN ts |->
    LET q == IF back /\ i = Len(ts) THEN Spot(1) ELSE Spot(i)
    IN [x |-> q.x, y |-> q.y, t |-> ts[i], s |-> IF ts[i] # "off" /\ i % 2 = 1 THEN s ELSE 0]]
Shapes == UNION {[1..n -> Types] \cup {[i \in 1..n |-> IF i = 1 THEN "move" ELSE ts[i]] : ts \in [1..n -> Types]} : n \in 1..Points}
AllContours == {c \in {Make(ts, s, back) : ts \in Shapes, s \in {0, 1}, back \in BOOLEAN} : WellFormed(c)}
\* in histories, few shapes do
Few == {Make(ts, 1, FALSE) : ts \in {<<"move", "line">>, <<"line", "line", "line">>, <<"curve", "line", "off", "off">>,
                                     <<"off", "qcurve", "line">>, <<"off", "off">>}}
Menu == IF Small THEN Few ELSE AllContours
Moved(c, k) == [i \in DOMAIN c |-> [c[i] EXCEPT !.s = IF k = 3 THEN 0 ELSE @, !.x = @ + 2000 * k * i, !.y = @ + 1000 * k * (i - 1) * 2]]

VARIABLES g,        \* the glyph
          drawn,    \* per master, what the user has drawn: contours in order
          last,     \* the contours of the round that master 1 began
          open,     \* the second master was drawn into and nothing was read since
          n, hist
vars == <<g, drawn, last, open, n, hist>>
Init == /\ g = [nodes |-> <<>>, comps |-> <<>>] /\ drawn = [m \in 1..M |-> <<>>] /\ last = <<>> /\ open = FALSE /\ n = 0 /\ hist = <<>>
Do(e) == /\ n < Depth /\ n' = n + 1 /\ hist' = Append(hist, e)
         /\ (Emit /\ n' = Depth) => PrintT(<<"HISTORY", ToJson(hist')>>)
Say(m, cl, c) == [op |-> "in", m |-> m, clear |-> IF cl THEN 1 ELSE 0, c |-> c]
\* master 1 decides on the structure; the other master has the same contour in the same place
\* (clearing it before the second master is finished is not defined: the second
\* master may as well have been drawn for what comes now)
First(c, cl) ==
    /\ ~(cl /\ open) /\ open' = FALSE
    /\ Do(Say(1, cl, <<c>>))
    /\ g' = InM(g, 1, M, cl, Taken(c, M), <<>>)
    /\ drawn' = [m \in 1..M |-> IF cl THEN <<c>> ELSE Append(drawn[m], c)]
    /\ last' = <<c>>
\* the contour of this round in the other master
Further(k) ==
    /\ last # <<>> /\ ~open /\ InOk(g, 2, FALSE, Taken(Moved(last[1], k), M), <<>>)
    /\ Do(Say(2, FALSE, <<Moved(last[1], k)>>))
    /\ g' = InM(g, 2, M, FALSE, Taken(Moved(last[1], k), M), <<>>)
    /\ drawn' = [drawn EXCEPT ![2] = Append(SubSeq(@, 1, Len(@) - 1), Moved(last[1], k))]
    /\ open' = TRUE /\ UNCHANGED last
\* all of the other master again
Again(k) ==
    LET cs == [i \in DOMAIN drawn[1] |-> Moved(drawn[1][i], k)]
        ns == FoldLeft(LAMBDA a, c : a \o Taken(c, M), <<>>, cs)
    IN /\ cs # <<>> /\ Do(Say(2, TRUE, cs)) /\ InOk(g, 2, TRUE, ns, <<>>)
       /\ g' = InM(g, 2, M, TRUE, ns, <<>>) /\ drawn' = [drawn EXCEPT ![2] = cs] /\ open' = TRUE /\ UNCHANGED last
Save == Do([op |-> "save"]) /\ open' = FALSE /\ UNCHANGED <<g, drawn, last>>
Read(m) == Do([op |-> "out", m |-> m]) /\ open' = FALSE /\ UNCHANGED <<g, drawn, last>>
Next == \/ \E c \in Menu, cl \in BOOLEAN : First(c, cl)
        \/ \E k \in {1, 3} : Further(k)
        \/ Again(2) \/ Save \/ (Emit /\ Read(2))
Spec == Init /\ [][Next]_vars

\* reading gives what was drawn, in every master
Faithful == \A m \in 1..M : PathsOf(g.nodes, m) = [i \in DOMAIN drawn[m] |-> PointPath(Whole(drawn[m][i]))]
\* the converter agrees with the pens about what these nodes draw
SameAsContours == \A m \in 1..M : [i \in DOMAIN Contours(g.nodes, m) |-> PointPath(Contours(g.nodes, m)[i])] = PathsOf(g.nodes, m)
\* where the contour ends in its start point, the two points become one
Doubled(c) == LET r == Rotated(Whole(c)) IN r[1].t # "move" /\ At(r[Len(r)]) = At(r[1])
SmoothStays == \A m \in 1..M :
    LET a == SmoothAt(Contours(g.nodes, m))
        \* smooth flags are those of the first master
        b == SmoothAt([i \in DOMAIN drawn[m] |-> LET r == Rotated(Whole(drawn[m][i]))
                                                     f == Rotated(drawn[1][i])
                                                 IN [j \in DOMAIN r |-> [r[j] EXCEPT !.s = f[j].s]]])
    IN \A i \in DOMAIN drawn[m] : a[i] = b[i] \/ Doubled(drawn[m][i])
\* drawing into the second master leaves the first alone
FirstStays == [][hist' # hist /\ hist'[Len(hist')].op # "in" => g' = g]_vars
OthersStay == [][(hist' # hist /\ hist'[Len(hist')].op = "in" /\ hist'[Len(hist')].m = 2) => PathsOf(g'.nodes, 1) = PathsOf(g.nodes, 1)]_vars
=============================================================================
