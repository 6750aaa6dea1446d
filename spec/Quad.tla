-------------------------------- MODULE Quad --------------------------------
(* Cubic to quadratic: the contours of a glyph are read from every master,    *)
(* their cubic segments become quadratic ones with as many points in every   *)
(* master, and the contours are drawn back in the other direction.            *)
EXTENDS Pens
EndOf(p, i) == IF i = 0 THEN p.start ELSE LET y == p.segs[i][2] IN y[Len(y)]
\* the same path in the other direction; closed ones keep their start point
ReversePath(p) ==
    LET n == Len(p.segs)
    IN [open |-> p.open, start |-> IF p.open THEN EndOf(p, n) ELSE p.start,
        segs |-> [k \in 1..n |-> LET i == n + 1 - k
                                     q == p.segs[i][2]
                                 IN <<p.segs[i][1], Reverse(SubSeq(q, 1, Len(q) - 1)) \o <<EndOf(p, i - 1)>>>>]]
\* lines that go nowhere draw nothing
Drawn(p) == [p EXCEPT !.segs = LET keep == {i \in DOMAIN p.segs : ~(p.segs[i][1] = "line" /\ p.segs[i][2][1] = EndOf(p, i - 1))}
                               IN FoldLeft(LAMBDA a, i : IF i \in keep THEN Append(a, p.segs[i]) ELSE a, <<>>, [i \in DOMAIN p.segs |-> i])]

\* --- the distance between a cubic segment and its replacement --------------
\* in 64ths of a unit
Fix(q) == <<64 * q[1], 64 * q[2]>>
Part(a, b, p, q) == a + (((b - a) * p) \div q)
Lerp(a, b, p, q) == <<Part(a[1], b[1], p, q), Part(a[2], b[2], p, q)>>
Cubic(w, p, q) ==
    LET a == Lerp(w[1], w[2], p, q)
        b == Lerp(w[2], w[3], p, q)
        c == Lerp(w[3], w[4], p, q)
    IN Lerp(Lerp(a, b, p, q), Lerp(b, c, p, q), p, q)
Conic(w, p, q) == Lerp(Lerp(w[1], w[2], p, q), Lerp(w[2], w[3], p, q), p, q)
Mag(x) == IF x < 0 THEN 0 - x ELSE x
\* whole units are kept, so every point may be off by another half
Close64(a, b, tol) == LET dx == Mag(a[1] - b[1])
                          dy == Mag(a[2] - b[2])
                          t == tol + 56
                      IN dx <= t /\ dy <= t /\ dx * dx + dy * dy <= t * t
\* qs: the off-curve points and the end; from: the start; cs: the cubic's handles and end
Approximates(from, cs, qs, tol) ==
    LET n == Len(qs) - 1
        w == <<Fix(from), Fix(cs[1]), Fix(cs[2]), Fix(cs[3])>>
        off(i) == Fix(qs[i])
        knot(i) == IF i = 0 THEN Fix(from) ELSE IF i = n THEN Fix(qs[n + 1]) ELSE Lerp(off(i), off(i + 1), 1, 2)
    IN /\ n >= 1 /\ qs[n + 1] = cs[3]
       /\ \A i \in 1..n : \A j \in 0..4 : Close64(Conic(<<knot(i - 1), off(i), knot(i)>>, j, 4), Cubic(w, 4 * (i - 1) + j, 4 * n), tol)

\* src: a segment of the reversed source, out: the one in its place
SegQuad(from, src, out, tol) ==
    IF src[1] = "curve" THEN out[1] = "qcurve" /\ Approximates(from, src[2], out[2], tol) ELSE out = src
PathQuad(src, out, tol) ==
    LET s == Drawn(ReversePath(src))
        o == Drawn(out)
    IN CASE s.segs = <<>> -> IF o.segs = <<>> /\ o.start = s.start THEN "ok" ELSE "a contour of one point changes"
         [] o.open # s.open -> "open and closed contours are mixed up"
         [] o.start # s.start -> "a contour has another start point"
         [] \E i \in DOMAIN o.segs : o.segs[i][1] = "curve" -> "a cubic segment is left"
         [] Len(o.segs) # Len(s.segs) -> "segments are added or dropped"
         [] \E i \in DOMAIN o.segs : EndOf(o, i) # EndOf(s, i) -> "an on-curve point moves, or the direction is not reversed"
         [] \E i \in DOMAIN o.segs : s.segs[i][1] # "curve" /\ o.segs[i] # s.segs[i] -> "a line or quadratic segment changes"
         [] \E i \in DOMAIN o.segs : ~SegQuad(EndOf(s, i - 1), s.segs[i], o.segs[i], tol) -> "a curve is farther from the source than allowed"
         [] OTHER -> "ok"
=============================================================================
