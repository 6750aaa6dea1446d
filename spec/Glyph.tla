------------------------------- MODULE Glyph -------------------------------
(* The glyph record: a four byte mark, then sections, each announced by a    *)
(* byte, until the end mark 0F.  The outlines section fixes the number of    *)
(* masters (gm) that the later sections depend on.                           *)
EXTENDS Records

TTCmd == <<
  <<1, "AlignTop", <<"pt", "zone">>>>, <<2, "AlignBottom", <<"pt", "zone">>>>,
  <<3, "SingleLinkH", <<"pt1", "pt2", "stem", "align">>>>, <<4, "SingleLinkV", <<"pt1", "pt2", "stem", "align">>>>,
  <<5, "DoubleLinkH", <<"pt1", "pt2", "stem">>>>, <<6, "DoubleLinkV", <<"pt1", "pt2", "stem">>>>,
  <<7, "AlignH", <<"pt", "align">>>>, <<8, "AlignV", <<"pt", "align">>>>,
  <<13, "InterpolateH", <<"pti", "pt1", "pt2", "align">>>>, <<14, "InterpolateV", <<"pti", "pt1", "pt2", "align">>>>,
  <<20, "MDeltaH", <<"pt", "shift", "ppm1", "ppm2">>>>, <<21, "MDeltaV", <<"pt", "shift", "ppm1", "ppm2">>>>,
  <<22, "FDeltaH", <<"pt", "shift", "ppm1", "ppm2">>>>, <<23, "FDeltaV", <<"pt", "shift", "ppm1", "ppm2">>>>>>
CmdRow(op) == LET h == {k \in 1..Len(TTCmd) : TTCmd[k][1] = op} IN IF h = {} THEN <<>> ELSE TTCmd[CHOOSE k \in h : TRUE]
CmdByName(w) == TTCmd[CHOOSE k \in 1..Len(TTCmd) : TTCmd[k][2] = w]

HintL(gm) == Cnt(Arr(gm, Rec(All(<<"pos", "width">>, N))))
MaskKey == [k \in {1, 2, 255} |-> CASE k = 1 -> "h" [] k = 2 -> "v" [] k = 255 -> "r"]
ComponentL(gm) == Tup(<<N, Arr(gm, Tup(<<N, N, F64L, F64L>>))>>)
KernL(gm) == Cnt(Tup(<<N, Arr(gm, N)>>))
BinMetrics == Tup(<<UN, N, N, N, N, Arr(4, N)>>)

\* a TrueType program in b[p..q]: are all push instructions complete and not empty?
RECURSIVE ProgramOk(_, _, _)
ProgramOk(b, p, q) ==
    IF p > q THEN p = q + 1
    ELSE LET o == b[p] IN
         CASE o \in 176..183 -> ProgramOk(b, p + 2 + o - 176, q)
           [] o \in 184..191 -> ProgramOk(b, p + 3 + 2 * (o - 184), q)
           [] o = 64 -> p < q /\ b[p + 1] > 0 /\ ProgramOk(b, p + 2 + b[p + 1], q)
           [] o = 65 -> p < q /\ b[p + 1] > 0 /\ ProgramOk(b, p + 2 + 2 * b[p + 1], q)
           [] OTHER -> ProgramOk(b, p + 1, q)

\* imported TrueType glyph; acc: record
RECURSIVE Imported(_, _, _)
Imported(b, p, acc) ==
    IF ~Has(b, p, 1) THEN Fail
    ELSE CASE b[p] = 40 -> <<D(acc), p + 1>>
      [] b[p] = 41 ->
          LET r == Dec0(BinMetrics, b, p + 1, <<>>) v == r[1][2] IN
          IF r[2] < 0 THEN Fail
          ELSE Imported(b, r[2], [width |-> v[1], lsb |-> v[2], unknown1 |-> v[3], unknown2 |-> v[4],
                                  unknown3 |-> v[5], bbox |-> v[6]] @@ acc)
      [] b[p] = 42 ->
          LET nc == Num(b, p + 1)
              ends == IF nc[2] < 0 \/ nc[1][2] > Len(b) THEN Fail
                      ELSE Times(UNum, b, nc[2], IF nc[1][2] < 0 THEN 0 ELSE nc[1][2])
              nodes == IF ends[2] < 0 THEN Fail ELSE Dec0(Cnt(Tup(<<N, N, <<"u8">>>>)), b, ends[2], <<>>)
          IN IF nodes[2] < 0 THEN Fail
             ELSE LET ns == nodes[1][2]
                      abs == FoldLeft(LAMBDA a, nd :
                                LET x == a[2] + nd[2][1][2] y == a[3] + nd[2][2][2] f == nd[2][3][2]
                                IN <<Append(a[1], D([flags |-> I(f), on |-> I(f % 2), point |-> L(<<I(x), I(y)>>)])), x, y>>,
                              <<<<>>, 0, 0>>, ns)[1]
                  IN Imported(b, nodes[2],
                       (IF ns = <<>> THEN [num_contours |-> nc[1], endpoints |-> ends[1]]
                        ELSE [num_contours |-> nc[1], endpoints |-> ends[1], nodes |-> L(abs)]) @@ acc)
      [] b[p] = 43 ->
          LET n == UNum(b, p + 1) IN
          IF n[2] < 0 \/ ~IsInt(n[1]) \/ n[1][2] > Len(b) \/ ~Has(b, n[2], n[1][2])
             \/ ~ProgramOk(b, n[2], n[2] + n[1][2] - 1) THEN Fail
          ELSE Imported(b, n[2] + n[1][2], [instructions |-> <<"y", SubSeq(b, n[2], n[2] + n[1][2] - 1)>>] @@ acc)
      [] b[p] = 44 ->
          LET r == Dec0(Cnt(<<"u8">>), b, p + 1, <<>>) IN
          IF r[2] < 0 THEN Fail ELSE Imported(b, r[2], [hdmx |-> r[1]] @@ acc)
      [] OTHER -> Fail

\* one instruction of the visual TrueType hinting
Command(b, p) ==
    IF ~Has(b, p, 1) \/ CmdRow(b[p]) = <<>> THEN Fail
    ELSE LET row == CmdRow(b[p])
             r == Dec0(Rec(All(row[3], N)), b, p + 1, <<>>)
         IN IF r[2] < 0 THEN Fail ELSE <<D([cmd |-> <<"w", row[2]>>, params |-> r[1]]), r[2]>>
HintMask(b, p) ==
    IF ~Has(b, p, 1) \/ b[p] \notin DOMAIN MaskKey THEN Fail
    ELSE LET r == Num(b, p + 1) IN IF r[2] < 0 THEN Fail ELSE <<L(<<<<"w", MaskKey[b[p]]>>, r[1]>>), r[2]>>

\* a section: <<new fields, next position>>; gm is -1 before the outlines
Section(b, p, gm, c) ==
    LET k == b[p]
        q == p + 1
        pick(vs, i) == L([j \in 1..Len(vs) |-> vs[j][2][i]])
    IN CASE k = 1 -> LET r == Dec0(PStr, b, q, <<>>) IN IF r[2] < 0 THEN Fail ELSE <<[name |-> r[1]], r[2]>>
      [] k = 8 -> Outlines(b, q)
      [] gm < 0 /\ k # 9 /\ k # 10 -> Fail
      [] k = 2 -> LET r == Dec0(Arr(gm, Tup(<<N, N>>)), b, q, <<>>) IN IF r[2] < 0 THEN Fail ELSE <<[metrics |-> r[1]], r[2]>>
      [] k = 3 ->
          LET h == Dec0(HintL(gm), b, q, <<>>)
              v == Dec0(HintL(gm), b, h[2], <<>>)
              m == Counted(HintMask, b, v[2])
          IN IF h[2] < 0 \/ v[2] < 0 \/ m[2] < 0 THEN Fail
             ELSE LET full == [h |-> h[1], v |-> v[1], hintmasks |-> m[1]]
                      hints == IF m[1][2] = <<>> THEN [h |-> h[1], v |-> v[1]] ELSE full
                  IN <<IF h[1][2] = <<>> /\ v[1][2] = <<>> /\ m[1][2] = <<>> THEN <<>> ELSE [hints |-> D(hints)], m[2]>>
      [] k = 4 -> LET r == Dec0(Guides, b, q, [masters |-> gm]) IN
                  IF r[2] < 0 \/ gm # c.masters THEN Fail ELSE <<[guides |-> r[1]], r[2]>>
      [] k = 5 ->
          LET r == Dec0(Cnt(ComponentL(gm)), b, q, <<>>) IN
          IF r[2] < 0 THEN Fail
          ELSE <<[components |-> L([j \in 1..Len(r[1][2]) |->
                    LET e == r[1][2][j][2] ms == e[2][2] IN
                    D([gid |-> e[1], offsetX |-> pick(ms, 1), offsetY |-> pick(ms, 2),
                       scaleX |-> pick(ms, 3), scaleY |-> pick(ms, 4)])])], r[2]>>
      [] k = 6 ->
          LET r == Dec0(KernL(gm), b, q, <<>>) IN
          IF r[2] < 0 THEN Fail
          ELSE <<[kerning |-> <<"m", FoldLeft(LAMBDA a, e : SetField(a, e[2][1], e[2][2]), <<>>, r[1][2])>>], r[2]>>
      [] k = 9 -> LET r == Imported(b, q, <<>>) IN IF r[2] < 0 THEN Fail ELSE <<[imported |-> r[1]], r[2]>>
      [] k = 10 ->
          LET n == Num(b, q)
              r == Counted(Command, b, n[2])
              z == Dec0(Arr(3, N), b, r[2], <<>>)
          IN IF n[2] < 0 \/ r[2] < 0 \/ z[2] < 0 THEN Fail
             ELSE <<IF r[1][2] = <<>> THEN <<>> ELSE [tth |-> r[1]], z[2]>>
      [] OTHER -> Fail

GlyphDecode(b, c) ==
    LET f == FoldLeft(LAMBDA a, k :
               IF a[3] # 0 THEN a
               ELSE IF ~Has(b, a[2], 1) THEN <<a[1], a[2], 2>>
               ELSE IF b[a[2]] = 15 THEN <<a[1], a[2] + 1, 1>>
               ELSE LET gm == IF "num_masters" \in DOMAIN a[1] THEN a[1].num_masters[2] ELSE -1
                        r == Section(b, a[2], gm, c)
                    IN IF r[2] < 0 THEN <<a[1], a[2], 2>> ELSE <<r[1] @@ a[1], r[2], 0>>,
             <<<<>>, 5, 0>>, [k \in 1..Len(b) |-> k])
    IN IF Len(b) < 5 \/ SubSeq(b, 1, 4) # <<1, 9, 7, 1>> \/ f[3] # 1 \/ f[2] # Len(b) + 1
          \* a glyph without outlines section is not complete
          \/ "num_masters" \notin DOMAIN f[1] THEN Bad ELSE D(f[1])

\* What a glyph record says: parts that are empty are the same as absent ones.
Meaning(v) ==
    LET r == v[2]
        empty(k) == \/ r[k][1] \in {"l", "m"} /\ r[k][2] = <<>>
                    \/ r[k][1] = "d" /\ DOMAIN r[k][2] = {}
                    \/ k = "guides" /\ r[k][2].h[2] = <<>> /\ r[k][2].v[2] = <<>>
        imp(d) == [k \in {k \in DOMAIN d : ~(k \in {"instructions", "hdmx"} /\ d[k][2] = <<>>)} |-> d[k]]
    IN D([k \in {k \in DOMAIN r : ~empty(k)} |-> IF k = "imported" THEN D(imp(r[k][2])) ELSE r[k]])

EncImported(d) ==
    LET has(k) == k \in DOMAIN d
        nodes == IF has("nodes") THEN d.nodes[2] ELSE <<>>
        en == FoldLeft(LAMBDA a, nd : LET x == nd[2].point[2][1][2] y == nd[2].point[2][2][2] IN
                 <<a[1] \o EncNum(x - a[2]) \o EncNum(y - a[3]) \o <<nd[2].flags[2]>>, x, y>>, <<<<>>, 0, 0>>, nodes)[1]
        ins == IF has("instructions") THEN d.instructions[2] ELSE <<>>
        hd == IF has("hdmx") THEN d.hdmx[2] ELSE <<>>
    IN <<41>> \o Enc0(BinMetrics, L(<<d.width, d.lsb, d.unknown1, d.unknown2, d.unknown3, d.bbox>>), <<>>)
       \o <<42>> \o EncTagged(d.num_contours) \o Cat([k \in 1..Len(d.endpoints[2]) |-> EncTagged(d.endpoints[2][k])])
       \o EncNum(Len(nodes)) \o en
       \o <<43>> \o EncNum(Len(ins)) \o ins \o <<44>> \o EncNum(Len(hd)) \o [k \in 1..Len(hd) |-> hd[k][2]] \o <<40>>

\* The canonical record.
GlyphEncode(v, c) ==
    LET r == Meaning(v)[2]
        gm == r.num_masters[2]
        part(k, bytes) == IF k \in DOMAIN r THEN bytes ELSE <<>>
        ms == IF "hints" \in DOMAIN r /\ "hintmasks" \in DOMAIN r.hints[2] THEN r.hints[2].hintmasks[2] ELSE <<>>
        tth == Cat([k \in 1..Len(r.tth[2]) |-> LET e == r.tth[2][k][2] row == CmdByName(e.cmd[2]) IN
                     <<row[1]>> \o Enc0(Rec(All(row[3], N)), e.params, <<>>)])
        tthall == EncNum(Len(r.tth[2])) \o tth \o <<139, 139, 139>>
    IN <<1, 9, 7, 1>>
       \o part("name", <<1>> \o Enc0(PStr, r.name, <<>>))
       \o <<8>> \o EncOutlines(r)
       \o part("metrics", <<2>> \o Enc0(Arr(gm, Tup(<<N, N>>)), r.metrics, <<>>))
       \o part("hints", <<3>> \o Enc0(HintL(gm), r.hints[2].h, <<>>) \o Enc0(HintL(gm), r.hints[2].v, <<>>)
                        \o EncNum(Len(ms))
                        \o Cat([k \in 1..Len(ms) |->
                             <<CHOOSE j \in DOMAIN MaskKey : MaskKey[j] = ms[k][2][1][2]>> \o EncNum(ms[k][2][2][2])]))
       \o part("guides", <<4>> \o Enc0(Guides, r.guides, [masters |-> gm]))
       \o part("components", <<5>> \o EncNum(Len(r.components[2]))
            \o Cat([k \in 1..Len(r.components[2]) |-> LET e == r.components[2][k][2] IN
                 EncTagged(e.gid) \o Cat([j \in 1..gm |-> EncTagged(e.offsetX[2][j]) \o EncTagged(e.offsetY[2][j])
                                                     \o e.scaleX[2][j][2] \o e.scaleY[2][j][2]])]))
       \o part("kerning", <<6>> \o EncNum(Len(r.kerning[2]))
            \o Cat([k \in 1..Len(r.kerning[2]) |-> EncTagged(r.kerning[2][k][1])
                      \o Cat([j \in 1..gm |-> EncTagged(r.kerning[2][k][2][2][j])])]))
       \o part("imported", <<9>> \o EncImported(r.imported[2]))
       \o part("tth", <<10>> \o EncNum(Len(tthall)) \o tthall)
       \o <<15>>
\* can the value be written: a partial imported section cannot
Writable(v) == "imported" \notin DOMAIN v[2] \/ {"width", "num_contours"} \subseteq DOMAIN v[2].imported[2]
                                             \/ DOMAIN v[2].imported[2] = {}

IsGlyph(id) == id = 2001
DecodeAny(id, b, c) == IF IsGlyph(id) THEN GlyphDecode(b, c) ELSE Decode(id, b, c)
EncodeAny(id, v, c) == IF IsGlyph(id) THEN GlyphEncode(v, c) ELSE Encode(id, v, c)
=============================================================================
