-------------------------------- MODULE C01 --------------------------------
(* Judging recorded uses of the number code.                                 *)
(*  dec : bytes, signed, out (tagged value or <<"exc">>), used               *)
(*  enc : value, bytes                                                       *)
(*  strm: bytes with several numbers: outs, the values read until the end    *)
EXTENDS Bytes, JudgeBase

DecOk(e) ==
    LET r == NumG(e.bytes, 1, e.signed = 1)
    IN  IF r[2] < 0 THEN IF e.out[1] = "exc" THEN "ok" ELSE "an undefined or truncated number was accepted"
        ELSE IF e.out[1] = "exc" THEN "a well-formed number was rejected"
        ELSE IF e.out # r[1] THEN "wrong value decoded"
        ELSE IF e.used # r[2] - 1 THEN "wrong number of bytes consumed"
        ELSE "ok"

EncOk(e) ==
    IF e.bytes # EncTagged(e.value) THEN "not the shortest form of the value"
    ELSE LET r == NumG(e.bytes, 1, e.value[1] = "i")
         IN IF r # <<e.value, Len(e.bytes) + 1>> THEN "encoding does not decode to the value" ELSE "ok"
LongOk(e) == IF e.bytes # EncLong(e.value[2]) THEN "wrong long form" ELSE "ok"

\* neg, mag: the sign and six bytes of a magnitude.  What no form can hold is refused.
Fits(e) ==
    LET four == e.mag[1] = 0 /\ e.mag[2] = 0
        top == e.mag[3]
        least == e.mag = <<0, 0, 128, 0, 0, 0>>
        short == four /\ top = 0 /\ e.mag[4] = 0 /\ e.mag[5] * 256 + e.mag[6] <= 1131
    IN short \/ IF e.signed = 1 THEN (four /\ top < 128) \/ (e.neg = 1 /\ least) ELSE four /\ e.neg = 0
BigOk(e) == IF Fits(e) = (e.out[1] = "ok") THEN "ok" ELSE "a value that does not fit is written, or one that fits is not"
ManyOk(e) == IF e.bytes # FoldLeft(LAMBDA a, v : a \o EncTagged(v), <<>>, e.values[2]) THEN "wrong bytes for several values" ELSE "ok"

StrmOk(e) ==
    LET r == UntilEnd(LAMBDA b, p : NumG(b, p, e.signed = 1), e.bytes, 1)
    IN  IF r[2] < 0 THEN IF e.out[1] = "exc" THEN "ok" ELSE "a damaged stream of numbers was accepted"
        ELSE IF e.out # r[1] THEN "wrong numbers read from the stream" ELSE "ok"

Verdict(e) == CASE e.k = "dec" -> DecOk(e) [] e.k = "enc" -> EncOk(e)
                [] e.k = "long" -> LongOk(e)
                [] e.k = "big" -> BigOk(e) [] e.k = "many" -> ManyOk(e)
                [] e.k = "strm" -> StrmOk(e) [] OTHER -> "unknown event"
JInit == JI
JNext == JN(Verdict)
=============================================================================
