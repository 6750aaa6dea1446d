------------------------------ MODULE Grammar ------------------------------
(* A small language for the layout of binary records, with its two           *)
(* meanings: Dec reads a value from bytes and Enc writes the canonical       *)
(* bytes of a value.  A layout is a tuple whose first element is its kind:   *)
(*                                                                           *)
(*  u8 s8 u16 s16 s32 u32 f64     fixed-size little-endian numbers           *)
(*  num unum                      variable-length signed / unsigned number   *)
(*  q k                           num that stands for num / 10^k             *)
(*  slope                         num that stands for the angle atan(n/10^4) *)
(*  chars n | pstr | bstr | tail | ztail n   text in code page 1252: n       *)
(*        bytes, with a num length, with a byte length, up to the end, up to *)
(*        the end with padding NULs not part of the text (padded to n)       *)
(*  hex                           remaining bytes as hexadecimal text        *)
(*  rec <<<<name, layout>>..>>    fields -> record                           *)
(*  map <<<<k, layout>>..>>       fields -> map with integer keys            *)
(*  tup <<layout..>>              fields -> list                             *)
(*  arr n layout                  n items (n may name a context number)      *)
(*  cnt layout                    number of items, items                     *)
(*  end layout                    items up to the end                        *)
(*  idx layout key                counted records, each with its own index   *)
(*  cidx n layout key             the same without a stored count            *)
(*  bits base names style         the set bits by name, or number            *)
(*  flags base names              named bits as fields, the rest as "other"  *)
(*  const v                       nothing stored, the value is v             *)
(*  other kinds                   see the modules that extend this one       *)
EXTENDS Bytes, Functions, Json

CharTab == JsonDeserialize("chars.json")
Cp == CharTab.cp1252
Mac == CharTab.mac
CpRev == [c \in {Cp[i] : i \in 1..256} \ {-1} |-> (CHOOSE i \in 1..256 : Cp[i] = c) - 1]
MacRev == [c \in {Mac[i] : i \in 1..256} |-> (CHOOSE i \in 1..256 : Mac[i] = c) - 1]

\* bytes p..q as text
Text(b, p, q) ==
    IF \E i \in p..q : Cp[b[i] + 1] = -1 THEN Bad
    ELSE <<"s", [k \in 1..(q - p + 1) |-> Cp[b[p + k - 1] + 1]]>>
TextBytes(codes) == [k \in 1..Len(codes) |-> IF codes[k] \in DOMAIN CpRev THEN CpRev[codes[k]] ELSE 63]
AsText(b, p, q, next) == LET t == Text(b, p, q) IN IF t = Bad THEN Fail ELSE <<t, next>>

Hex == <<48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102>>
HexText(b) == [k \in 1..2 * Len(b) |->
                LET x == b[(k + 1) \div 2] IN IF k % 2 = 1 THEN Hex[(x \div 16) + 1] ELSE Hex[(x % 16) + 1]]
HexVal(c) == IF c >= 97 THEN c - 87 ELSE c - 48
HexBytes(cs) == [k \in 1..(Len(cs) \div 2) |-> 16 * HexVal(cs[2*k - 1]) + HexVal(cs[2*k])]

Pow2 == [k \in 0..30 |-> 2^k]
Bit(v, k) ==
    CASE v[1] = "u" -> (IF k < 16 THEN (v[3] \div Pow2[k]) % 2 ELSE (v[2] \div Pow2[k - 16]) % 2)
      [] k = 31 -> IF v[2] < 0 THEN 1 ELSE 0
      [] OTHER -> (v[2] \div Pow2[k]) % 2
BitList(v) == SelectSeq([k \in 1..32 |-> k - 1], LAMBDA k : Bit(v, k) = 1)
\* the number with these bits as two limbs, then as tagged value
Limb(bs, lo) == FoldLeft(LAMBDA a, k : IF k \in bs THEN a + Pow2[k - lo] ELSE a, 0, [j \in 1..16 |-> lo + j - 1])
UOf(bs) == LET h == Limb(bs, 16) l == Limb(bs, 0) IN
           IF h > 32767 THEN <<"u", h, l>> ELSE I(h * 65536 + l)
SOf(bs) == LET h == Limb(bs, 16) l == Limb(bs, 0) IN
           IF h > 32767 THEN I((h - 65536) * 65536 + l) ELSE I(h * 65536 + l)

NameOf(names, k) == IF k + 1 <= Len(names) THEN names[k + 1] ELSE ""
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

Ctx(n, c) == IF n \in {"masters", "v", "h", "gm", "m1"} THEN c[n] ELSE 0
RepN(n, c) == IF n[1] = "n" THEN n[2] ELSE Ctx(n[2], c)

Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Le16(n) == <<n % 256, (n \div 256) % 256>>
Le32(v) == IF v[1] = "u" THEN Le16(v[3]) \o Le16(v[2])
           ELSE <<ByteOf(v[2],0), ByteOf(v[2],1), ByteOf(v[2],2), ByteOf(v[2],3)>>

\* NULs at both ends are padding
StripZ(cs) ==
    LET nz == {k \in 1..Len(cs) : cs[k] # 0} IN
    IF nz = {} THEN <<>>
    ELSE SubSeq(cs, CHOOSE k \in nz : \A j \in nz : k <= j, CHOOSE k \in nz : \A j \in nz : k >= j)

(***************************************************************************)
(* Comparing a specified value with a recorded one.  In recorded values a   *)
(* text is <<"s", codes, text>> and a real is                               *)
(* <<"f", bytes, <<n>> if it is n/10^4, the same for 10^8,                  *)
(*   <<n>> if it is atan(n/10^4) in degrees>>                               *)
(***************************************************************************)
RECURSIVE Same(_, _)
Same(s, r) ==
  CASE s[1] = "i" -> r[1] \in {"i", "b"} /\ r[2] = s[2]
    [] s[1] = "u" -> r[1] = "u" /\ r[2] = s[2] /\ r[3] = s[3]
    [] s[1] = "s" -> r[1] = "s" /\ r[2] = s[2]
    [] s[1] = "w" -> r[1] = "s" /\ r[3] = s[2]
    [] s[1] = "f" -> r[1] = "f" /\ r[2] = s[2]
    [] s[1] = "y" -> r[1] = "y" /\ r[2] = s[2]
    [] s[1] = "n" -> r[1] = "n"
    [] s[1] = "q" -> \/ r[1] = "f" /\ r[IF s[2] = 4 THEN 3 ELSE 4] = <<s[3]>>
                     \/ r[1] = "i" /\ s[3] = 0 /\ r[2] = 0
    [] s[1] = "ang" -> r[1] = "f" /\ r[5] = <<s[2]>>
    [] s[1] = "l" -> r[1] = "l" /\ Len(r[2]) = Len(s[2]) /\ \A k \in 1..Len(s[2]) : Same(s[2][k], r[2][k])
    [] s[1] = "d" -> r[1] = "d" /\ DOMAIN r[2] = DOMAIN s[2] /\ \A k \in DOMAIN s[2] : Same(s[2][k], r[2][k])
    \* ordered fields: the order is that of the file, a dictionary has none
    [] s[1] = "od" -> /\ r[1] = "d" /\ DOMAIN r[2] = {s[2][k][1] : k \in 1..Len(s[2])}
                      /\ \A k \in 1..Len(s[2]) : Same(s[2][k][2], r[2][s[2][k][1]])
    [] s[1] = "m" -> \/ s[2] = <<>> /\ r[1] = "d" /\ DOMAIN r[2] = {}
                     \/ /\ r[1] = "m" /\ Len(r[2]) = Len(s[2])
                        /\ \A k \in 1..Len(s[2]) : \E j \in 1..Len(r[2]) :
                              Same(s[2][k][1], r[2][j][1]) /\ Same(s[2][k][2], r[2][j][2])
    \* fields named by texts, in any order
    [] s[1] = "sd" -> /\ r[1] = "sd" /\ Len(r[2]) = Len(s[2])
                      /\ \A k \in 1..Len(s[2]) : \E j \in 1..Len(r[2]) :
                              s[2][k][1] = r[2][j][1] /\ Same(s[2][k][2], r[2][j][2])
    [] OTHER -> FALSE
=============================================================================
