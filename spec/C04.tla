-------------------------------- MODULE C04 --------------------------------
(* A glyph record was given to the real decoder, the decoded value to the    *)
(* real encoder, and the result decoded again.                               *)
EXTENDS Glyph, JudgeBase
Verdict(e) ==
    LET s == GlyphDecode(e.data, e.ctx)
    IN  IF s = Bad THEN (IF e.wf = 1 THEN "harness: this record should be well-formed" ELSE "ok")
        ELSE IF e.dst # "ok" THEN "a well-formed glyph is not decoded"
        ELSE IF ~Same(s, e.dec) THEN "wrong value decoded"
        ELSE IF ~Writable(s) THEN "ok"
        ELSE IF e.est # "ok" THEN "the decoded glyph cannot be encoded"
        ELSE LET t == GlyphDecode(e.enc, e.ctx) IN
             IF t = Bad THEN "the encoded glyph is damaged"
             ELSE IF Meaning(t) # Meaning(s) THEN "the encoded glyph means something else"
             ELSE IF GlyphEncode(s, e.ctx) = e.data /\ e.enc # e.data THEN "the encoded glyph is not in the canonical form"
             ELSE IF ~Same(t, e.dec2) THEN "decoding the encoded glyph gives another value"
             ELSE "ok"
JInit == JI
JNext == JN(Verdict)
=============================================================================
