------------------------------- MODULE Bytes -------------------------------
(* Byte strings, fixed-size little-endian numbers and the variable-length    *)
(* number code of the VFB format.                                            *)
(*                                                                           *)
(* A reader is an operator  R(b, p)  that reads from byte string b at the    *)
(* 1-based position p and returns <<value, next position>>.  Reading past    *)
(* the end, or from a poisoned position, gives <<Bad, -1>>: a failure is     *)
(* sticky and can never be mistaken for a value.                             *)
(*                                                                           *)
(* Values are tagged trees, the same that the harness produces from Python   *)
(* values: <<"i", n>> 32-bit signed integer, <<"u", hi, lo>> integer from    *)
(* 2^31 to 2^32-1 in 16-bit limbs, <<"s", string>>, <<"f", eight bytes>>     *)
(* double, <<"q", n>> a real stored as scaled integer, <<"l", seq>>,         *)
(* <<"d", record>>, <<"m", seq of pairs>>, <<"n">> nothing, <<"b", 0/1>>.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Bad == <<"bad">>
Fail == <<Bad, -1>>
I(n) == <<"i", n>>
S(s) == <<"s", s>>
L(s) == <<"l", s>>
D(r) == <<"d", r>>
None == <<"n">>
B(x) == <<"b", IF x THEN 1 ELSE 0>>

Byte == 0..255
Has(b, p, n) == p > 0 /\ n <= Len(b) - p + 1
AtEnd(b, p) == p = Len(b) + 1

U8(b, p)  == IF Has(b, p, 1) THEN <<I(b[p]), p + 1>> ELSE Fail
S8(b, p)  == IF Has(b, p, 1)
             THEN <<I(IF b[p] > 127 THEN b[p] - 256 ELSE b[p]), p + 1>> ELSE Fail
U16n(b, p) == b[p] + 256 * b[p + 1]
U16(b, p) == IF Has(b, p, 2) THEN <<I(U16n(b, p)), p + 2>> ELSE Fail
S16(b, p) == IF Has(b, p, 2)
             THEN LET u == U16n(b, p) IN <<I(IF u > 32767 THEN u - 65536 ELSE u), p + 2>>
             ELSE Fail

\* b3 the most significant byte
SignedOf(b3, b2, b1, b0) ==
    (IF b3 > 127 THEN b3 - 256 ELSE b3) * 16777216 + b2 * 65536 + b1 * 256 + b0
UnsignedOf(b3, b2, b1, b0) ==
    IF b3 > 127 THEN <<"u", b3 * 256 + b2, b1 * 256 + b0>>
    ELSE I(SignedOf(b3, b2, b1, b0))

S32(b, p) == IF Has(b, p, 4)
             THEN <<I(SignedOf(b[p+3], b[p+2], b[p+1], b[p])), p + 4>> ELSE Fail
U32(b, p) == IF Has(b, p, 4)
             THEN <<UnsignedOf(b[p+3], b[p+2], b[p+1], b[p]), p + 4>> ELSE Fail
F64(b, p) == IF Has(b, p, 8) THEN <<<<"f", SubSeq(b, p, p + 7)>>, p + 8>> ELSE Fail
Raw(b, p, n) == IF n >= 0 /\ Has(b, p, n) THEN <<SubSeq(b, p, p + n - 1), p + n>> ELSE Fail

(***************************************************************************)
(* The variable-length number code.                                        *)
(*   20..F6   one byte,  value b - 8B                                      *)
(*   F7..FA   two bytes, value  (b - F7) * 100 + b2 + 6C                   *)
(*   FB..FE   two bytes, value -(b - FB) * 100 - b2 - 6C                   *)
(*   FF       five bytes, 32 bit big endian                                *)
(*   00..1F   no number                                                    *)
(***************************************************************************)
NumSize(b0) == IF b0 < 32 THEN 0 ELSE IF b0 <= 246 THEN 1 ELSE IF b0 <= 254 THEN 2 ELSE 5

NumG(b, p, signed) ==
    IF ~Has(b, p, 1) THEN Fail
    ELSE LET b0 == b[p]
             n == NumSize(b0)
         IN  IF n = 0 \/ ~Has(b, p, n) THEN Fail
             ELSE <<CASE n = 1 -> I(b0 - 139)
                      [] n = 2 /\ b0 <= 250 -> I((b0 - 247) * 256 + b[p+1] + 108)
                      [] n = 2 /\ b0 > 250 -> I(-((b0 - 251) * 256) - b[p+1] - 108)
                      [] OTHER -> IF signed
                                  THEN I(SignedOf(b[p+1], b[p+2], b[p+3], b[p+4]))
                                  ELSE UnsignedOf(b[p+1], b[p+2], b[p+3], b[p+4]),
                    p + n>>
Num(b, p) == NumG(b, p, TRUE)
UNum(b, p) == NumG(b, p, FALSE)

\* The shortest form of the signed number n.
FloorDiv(a, k) == IF a >= 0 THEN a \div k ELSE -((k - 1 - a) \div k)
ByteOf(n, k) ==  \* byte k (0 = least significant) of the two's complement of n
    CASE k = 0 -> n % 256 [] k = 1 -> (n \div 256) % 256
      [] k = 2 -> (n \div 65536) % 256 [] OTHER -> (n \div 16777216) % 256
EncNum(n) ==
    CASE n >= -107 /\ n <= 107 -> <<n + 139>>
      [] n >= 108 /\ n <= 1131 -> <<247 + (n - 108) \div 256, (n - 108) % 256>>
      [] n >= -1131 /\ n <= -108 -> <<251 + (-n - 108) \div 256, (-n - 108) % 256>>
      [] OTHER -> <<255, ByteOf(n, 3), ByteOf(n, 2), ByteOf(n, 1), ByteOf(n, 0)>>
EncLong(n) == <<255, ByteOf(n, 3), ByteOf(n, 2), ByteOf(n, 1), ByteOf(n, 0)>>
\* tagged version, for unsigned values of 2^31 and above
EncTagged(v) == IF v[1] = "u" THEN <<255, v[2] \div 256, v[2] % 256, v[3] \div 256, v[3] % 256>>
                ELSE EncNum(v[2])

IsInt(v) == Len(v) = 2 /\ v[1] = "i"
IntOf(v) == IF Len(v) = 2 /\ v[1] = "i" THEN v[2] ELSE 0

(***************************************************************************)
(* Combinators.                                                            *)
(***************************************************************************)
\* n times R, collected in a list
Times(R(_, _), b, p, n) ==
    IF p < 0 \/ n < 0 THEN Fail
    ELSE LET f == FoldLeft(LAMBDA acc, k :
                        IF acc[2] < 0 THEN acc
                        ELSE LET r == R(b, acc[2])
                             IN IF r[2] < 0 THEN <<acc[1], -1>>
                                ELSE <<Append(acc[1], r[1]), r[2]>>,
                     <<<<>>, p>>, [k \in 1..n |-> k])
         IN  IF f[2] < 0 THEN Fail ELSE <<L(f[1]), f[2]>>
\* a count (one variable-length number) followed by that many items; a count that
\* exceeds what the remaining bytes can hold fails at once
CountOk(v, b) == IsInt(v) /\ v[2] >= 0 /\ v[2] <= 8 * Len(b)
Counted(R(_, _), b, p) ==
    LET c == UNum(b, p) IN IF c[2] < 0 \/ ~CountOk(c[1], b) THEN Fail ELSE Times(R, b, c[2], c[1][2])
\* R until the end of the data
UntilEnd(R(_, _), b, p) ==
    LET f == FoldLeft(LAMBDA acc, k :
                 IF acc[2] < 0 \/ AtEnd(b, acc[2]) THEN acc
                 ELSE LET r == R(b, acc[2]) IN
                      IF r[2] < 0 THEN <<acc[1], -1>> ELSE <<Append(acc[1], r[1]), r[2]>>,
                 <<<<>>, p>>, [k \in 1..Len(b) |-> k])
    IN IF f[2] < 0 THEN Fail ELSE <<L(f[1]), f[2]>>
Map(F(_), r) == IF r[2] < 0 THEN Fail ELSE <<F(r[1]), r[2]>>
Items(v) == v[2]
=============================================================================
