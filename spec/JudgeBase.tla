----------------------------- MODULE JudgeBase -----------------------------
(* Every recorded event is one behaviour of two states: not yet judged, and  *)
(* judged.  A verdict is the string "ok" or the name of the clause that does *)
(* not hold; it is total, so TLC never stops at the first bad event.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
JEvents == ndJsonDeserialize(IOEnv.EVENTS)
VARIABLES ji, jv
\* a batch is a bundle of events judged in one state: the verdict is the first bad one's
JudgeAll(V(_), e) ==
    IF "batch" \in DOMAIN e
    THEN LET bad == {k \in 1..Len(e.batch) : V(e.batch[k]) # "ok"}
         IN  IF bad = {} THEN "ok"
             ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j
                  IN  V(e.batch[k]) \o " (#" \o ToString(k) \o ")"
    ELSE V(e)
JI == ji \in 1..Len(JEvents) /\ jv = "?"
JN(V(_)) == /\ jv = "?" /\ jv' = JudgeAll(V, JEvents[ji]) /\ ji' = ji
            /\ (jv' = "ok" \/ PrintT(<<"BAD", ji, jv'>>))
=============================================================================
