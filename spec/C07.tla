-------------------------------- MODULE C07 --------------------------------
(* Damaged input.                                                            *)
(*  cut : the first bytes of a well-formed file were given to the reader     *)
(*  rec : the first bytes of a well-formed record were given to its decoder  *)
(*  mut : the bytes of a record, changed somehow, were given to its decoder  *)
(* Damaged records inside an open font are histories of Lifecycle.tla with   *)
(* broken records, judged by C06.                                            *)
EXTENDS Glyph, VfbFile, JudgeBase

CutOk(e) ==
    LET r == RunReader(e.raw, {})
        whole == RunReader(e.whole, {})
    IN  IF whole.phase # "done" THEN "harness: the whole file is not well-formed"
        ELSE IF e.err = 2 THEN "reading does not end"
        ELSE IF r.phase = "error"
        THEN IF e.err = 1 THEN "ok" ELSE "a cut-off file was read without an error"
        ELSE IF e.err = 1 THEN "a file that ends between two records was rejected"
        ELSE IF e.entries # r.entries THEN "wrong entries read"
        ELSE IF \E k \in 1..Len(e.entries) : e.entries[k] # whole.entries[k] THEN "records are invented"
        ELSE "ok"

RecOk(e) ==
    IF e.dst = "HANG" THEN "decoding does not end or needs too much memory"
    ELSE IF e.dst = "error" THEN
         IF e.kept # 1 THEN "a record that cannot be decoded does not keep its bytes"
         ELSE IF e.flag # 1 THEN "a record that cannot be decoded is not flagged"
         ELSE "ok"
    ELSE IF e.k = "rec" /\ DecodeAny(e.id, e.data, e.ctx) = Bad THEN "a shortened record is presented as complete"
    ELSE "ok"
Verdict(e) == IF e.k = "cut" THEN CutOk(e) ELSE RecOk(e)
JInit == JI
JNext == JN(Verdict)
=============================================================================
