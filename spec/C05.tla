-------------------------------- MODULE C05 --------------------------------
(* Glyph attachments and bitmaps: the same judgement as C03, except that a   *)
(* bitmap has many encodings of the same pixels and no canonical one.        *)
EXTENDS Records, JudgeBase
Verdict(e) ==
    LET s == Decode(e.id, e.data, e.ctx)
        bitmap == LayoutOf[e.id][1] \in {"background"} \/ LayoutOf[e.id] = Cnt(<<"gbitmap">>)
    IN  IF s = Bad THEN (IF e.wf = 1 THEN "harness: this record should be well-formed" ELSE "ok")
        ELSE IF e.dst # "ok" THEN "a well-formed record is not decoded"
        ELSE IF ~Same(s, e.dec) THEN "wrong value decoded"
        ELSE IF e.est # "ok" THEN "the decoded value cannot be encoded"
        ELSE IF Decode(e.id, e.enc, e.ctx) # s THEN "the encoded record means something else"
        ELSE IF ~bitmap /\ Encode(e.id, s, e.ctx) = e.data /\ e.enc # e.data THEN "the encoded record is not in the canonical form"
        ELSE IF ~Same(s, e.dec2) THEN "decoding the encoded record gives another value"
        ELSE IF e.stable # 1 THEN "encoding the same value a second time gives other bytes"
        ELSE "ok"
JInit == JI
JNext == JN(Verdict)
=============================================================================
