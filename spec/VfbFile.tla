------------------------------ MODULE VfbFile ------------------------------
(* The VFB container: header, entry framing, reading and writing.            *)
(*                                                                           *)
(* An entry is [id |-> 0..32767, data |-> bytes].  Reading is a state        *)
(* machine over the byte string; its state is                                *)
(*   [pos, entries, masters, phase]                                          *)
(* where phase is "header", "entries", "done" (end marker, or the data ends  *)
(* between two entries) or "error" (cut off or foreign data).                *)
EXTENDS Bytes

HeaderSize == 44
IdEnd == 2
IdMasterCount == 1503
IdMMKernPair == 1410
ShortMax == 65535

Pad(n) == [k \in 1..n |-> 0]
LE16(n) == <<n % 256, n \div 256>>
LE32(n) == <<ByteOf(n, 0), ByteOf(n, 1), ByteOf(n, 2), ByteOf(n, 3)>>

HeaderBytes(minor) == <<26, 87, 76, 70, 49, 48, 3, minor>> \o LE32(HeaderSize) \o Pad(HeaderSize - 12)

\* the bytes in front of the data of an entry with identifier id and n data bytes
EntryHeader(id, n) == IF n > ShortMax THEN LE16(id + 32768) \o LE32(n) ELSE LE16(id) \o LE16(n)
EntryBytes(e) == EntryHeader(e.id, Len(e.data)) \o e.data
FileBytes(minor, es) ==
    HeaderBytes(minor) \o FoldLeft(LAMBDA acc, e : acc \o EntryBytes(e), <<>>, es)

---------------------------------------------------------------------------
\* Reading one entry header at p: <<id, declared size, next position>> or next = -1
ReadHead(b, p) ==
    IF ~Has(b, p, 2) THEN <<0, 0, -1>>
    ELSE LET raw == U16n(b, p)
         IN  IF raw > 32767
             THEN IF ~Has(b, p + 2, 4) THEN <<0, 0, -1>>
                  \* sizes of 2^31 and above cannot be in the data
                  ELSE IF b[p + 5] > 127 THEN <<0, 0, -1>>
                  ELSE <<raw - 32768, SignedOf(b[p+5], b[p+4], b[p+3], b[p+2]), p + 6>>
             ELSE IF ~Has(b, p + 2, 2) THEN <<0, 0, -1>>
                  ELSE <<raw, U16n(b, p + 2), p + 4>>

\* the size of kerning pair records is not taken from their header
TrueSize(id, declared, masters) == IF id = IdMMKernPair THEN 8 + 2 * masters ELSE declared

MastersAfter(id, data, masters) ==
    IF id = IdMasterCount /\ Len(data) = 2 THEN U16n(data, 1) ELSE masters

HeaderOk(b) ==
    /\ Len(b) >= 12
    /\ SubSeq(b, 1, 7) = SubSeq(HeaderBytes(0), 1, 7)

R0 == [pos |-> 1, entries |-> <<>>, masters |-> 0, phase |-> "header", minor |-> 0]

StepHeader(b, s) ==
    IF ~HeaderOk(b) THEN [s EXCEPT !.phase = "error"]
    ELSE LET off == U32(b, 9)[1] IN
         IF off[1] # "i" THEN [s EXCEPT !.phase = "error"]
         ELSE IF off[2] < 12 \/ off[2] > Len(b) THEN [s EXCEPT !.phase = "error"]
         ELSE [s EXCEPT !.phase = "entries", !.pos = off[2] + 1, !.minor = b[8]]

StepEntry(b, s, drop) ==
    IF AtEnd(b, s.pos) THEN [s EXCEPT !.phase = "done"]
    ELSE LET h == ReadHead(b, s.pos)
             n == TrueSize(h[1], h[2], s.masters)
         IN  IF h[3] < 0 \/ ~Has(b, h[3], n) THEN [s EXCEPT !.phase = "error"]
             ELSE LET data == SubSeq(b, h[3], h[3] + n - 1) IN
                  [s EXCEPT
                     !.pos = h[3] + n,
                     !.masters = MastersAfter(h[1], data, @),
                     !.entries = IF h[1] \in drop THEN @ ELSE Append(@, [id |-> h[1], data |-> data]),
                     !.phase = IF h[1] = IdEnd THEN "done" ELSE "entries"]

Step(b, s, drop) == CASE s.phase = "header" -> StepHeader(b, s)
                      [] s.phase = "entries" -> StepEntry(b, s, drop)
                      [] OTHER -> s

\* the reader run to its end: at most one step per four bytes
RunReader(b, drop) ==
    FoldLeft(LAMBDA s, k : IF s.phase \in {"done", "error"} THEN s ELSE Step(b, s, drop),
             R0, [k \in 1..(Len(b) \div 4 + 3) |-> k])

\* an entry sequence that a reader can give back unchanged: the end marker, if any, is
\* last, and kerning pair records have the size that goes with the number of masters
WellFormed(es) ==
    LET ms == FoldLeft(LAMBDA acc, e : <<MastersAfter(e.id, e.data, acc[1]),
                             acc[2] /\ (e.id = IdMMKernPair => Len(e.data) = 8 + 2 * acc[1])>>,
                       <<0, TRUE>>, es)
    IN  ms[2] /\ \A k \in 1..Len(es) : es[k].id = IdEnd => k = Len(es)
=============================================================================
