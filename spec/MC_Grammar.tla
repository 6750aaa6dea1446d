----------------------------- MODULE MC_Grammar -----------------------------
(* The grammar itself: for every record type and every short byte string     *)
(* over a small alphabet, writing what was read and reading it again gives   *)
(* the same value, and writing is stable.                                    *)
EXTENDS Glyph
CONSTANTS MaxLen, Ids, Alphabet, Masters
VARIABLES id, b, m
Ctx1 == [masters |-> m, platform |-> "macos", v |-> 1, h |-> 1]
\* values without canonical form: unnamed mapping modes, bitmaps
NoCanon(i) == i \in {1742, 2007, 2013, 2018}
\* a glyph starts with its mark and an outlines section without nodes
Start == IF id = 2001 THEN <<1, 9, 7, 1, 8, 139 + m, 139, 139>> ELSE <<>>
Init == id \in Ids /\ m \in Masters /\ b = Start
Next == /\ Len(b) < MaxLen + Len(Start)
        /\ \E x \in Alphabet : b' = Append(b, x)
        /\ UNCHANGED <<id, m>>
Norm(s) == IF IsGlyph(id) THEN Meaning(s) ELSE s
Stable ==
    LET s == DecodeAny(id, b, Ctx1) IN
    s = Bad \/ NoCanon(id) \/ (IsGlyph(id) /\ ~Writable(s)) \/
    LET e == EncodeAny(id, s, Ctx1)
        t == DecodeAny(id, e, Ctx1)
    IN  /\ t # Bad /\ Norm(t) = Norm(s)
        /\ EncodeAny(id, t, Ctx1) = e
        /\ Len(e) <= Len(b) + 24
\* a record cut short is never the whole record with something else in it, unless
\* its layout runs to the end of the data
=============================================================================
