-------------------------------- MODULE C03 --------------------------------
(* A record (identifier, bytes, context) was given to the real decoder, the  *)
(* decoded value to the real encoder, and the result decoded again.          *)
EXTENDS Records, JudgeBase
Verdict(e) ==
    LET s == Decode(e.id, e.data, e.ctx)
    IN  IF s = Bad THEN (IF e.wf = 1 THEN "harness: this record should be well-formed"
                         ELSE "ok")     \* nothing is claimed about it here
        ELSE IF e.dst # "ok" THEN "a well-formed record is not decoded"
        ELSE IF ~Same(s, e.dec) THEN "wrong value decoded"
        ELSE IF e.est # "ok" THEN "the decoded value cannot be encoded"
        ELSE IF Decode(e.id, e.enc, e.ctx) # s THEN "the encoded record means something else"
        ELSE IF Encode(e.id, s, e.ctx) = e.data /\ e.enc # e.data THEN "the encoded record is not in the canonical form"
        ELSE IF ~Same(s, e.dec2) THEN "decoding the encoded record gives another value"
        ELSE "ok"
JInit == JI
JNext == JN(Verdict)
=============================================================================
