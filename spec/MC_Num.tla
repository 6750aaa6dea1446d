------------------------------- MODULE MC_Num -------------------------------
(* Exhaustive design check of the number code: over a window of integers and *)
(* over all byte strings of a bounded alphabet, the code is a bijection      *)
(* between integers and shortest forms, prefix-free, and total.              *)
EXTENDS Bytes
CONSTANTS Window, Lead5
VARIABLES kind, n, b
vars == <<kind, n, b>>
WindowDef == -3000..3000
Lead5Def == {0, 1, 4, 107, 127, 128, 251, 255}
Edge == {-2147483647 - 1, -2147483647, -65537, -65536, -32769, -32768, -1132, -1131, -108, -107,
         107, 108, 1131, 1132, 32767, 32768, 65535, 65536, 16777215, 16777216, 2147483647}
Init == \/ kind = "int" /\ n \in Window \cup Edge /\ b = <<>>
        \/ kind = "bytes" /\ n = 0
           /\ b \in {<<x>> : x \in Byte} \cup (Byte \X {0, 1, 127, 128, 255})
                \cup {<<255, a1, a2, a3, a4>> : a1 \in Lead5, a2 \in Lead5, a3 \in Lead5, a4 \in Lead5}
                \cup {<<255, a1, a2, a3>> : a1 \in Lead5, a2 \in Lead5, a3 \in Lead5}
Next == UNCHANGED vars
RoundTrip == kind = "int" =>
    /\ Num(EncNum(n), 1) = <<I(n), Len(EncNum(n)) + 1>>
    /\ Num(EncLong(n), 1) = <<I(n), 6>>
    /\ n >= 0 => UNum(EncNum(n), 1) = <<I(n), Len(EncNum(n)) + 1>>
\* no shorter form decodes to the same number
Minimal == kind = "bytes" /\ Num(b, 1)[2] = Len(b) + 1 =>
    Len(EncNum(Num(b, 1)[1][2])) <= Len(b)
\* one- and two-byte forms are unique: re-encoding gives the same bytes
Canonical == kind = "bytes" /\ Num(b, 1)[2] = Len(b) + 1 /\ Len(b) < 5 =>
    EncNum(Num(b, 1)[1][2]) = b
\* no encoding is a proper prefix of another
PrefixFree == kind = "bytes" /\ Num(b, 1)[2] > 0 =>
    \A k \in 1..(Num(b, 1)[2] - 2) : Num(SubSeq(b, 1, k), 1) = Fail
\* signed and unsigned readings agree except from 2^31 on
SignedAgree == kind = "bytes" /\ Num(b, 1)[2] > 0 =>
    \/ Num(b, 1) = UNum(b, 1)
    \/ /\ UNum(b, 1)[1][1] = "u" /\ UNum(b, 1)[2] = Num(b, 1)[2]
       /\ Num(b, 1)[1][2] < 0 /\ EncTagged(UNum(b, 1)[1]) = EncLong(Num(b, 1)[1][2])
=============================================================================
