------------------------------ MODULE Records ------------------------------
(* The layouts of all records of a VFB file other than glyphs, and of glyph  *)
(* attachments; the special kinds of layouts that only VFB records use.      *)
EXTENDS Grammar

N == <<"num">>
UN == <<"unum">>
Rec(fs) == <<"rec", fs>>
Cnt(f) == <<"cnt", f>>
Arr(n, f) == <<"arr", <<"n", n>>, f>>
ArrC(n, f) == <<"arr", <<"c", n>>, f>>
Tup(fs) == <<"tup", fs>>
PStr == <<"pstr">>
Str == <<"ztail", 0>>
U16L == <<"u16">>
S16L == <<"s16">>
S32L == <<"s32">>
U32L == <<"u32">>
F64L == <<"f64">>
All(names, f) == [k \in 1..Len(names) |-> <<names[k], f>>]

(***************************************************************************)
(* Pieces                                                                  *)
(***************************************************************************)
Stem6 == Rec(<<<<"value", N>>, <<"name", <<"bstr">>>>, <<"round", <<"map", <<<<6, N>>>>>>>>>>)
Rounds(ks) == Rec(<<<<"round", <<"map", [k \in 1..Len(ks) |-> <<ks[k], N>>]>>>>>>)
Zone == Rec(<<<<"position", N>>, <<"value", N>>, <<"name", PStr>>>>)
Guide == Rec(<<<<"pos", N>>, <<"angle", <<"slope">>>>>>)
Guides == Rec(<<<<"h", Cnt(ArrC("masters", Guide))>>, <<"v", Cnt(ArrC("masters", Guide))>>>>)
Pclt == Rec(<<<<"font_number", UN>>>>
            \o All(<<"pitch","x_height","style","type_family","cap_height","symbol_set">>, N)
            \o <<<<"typeface", <<"chars", 16>>>>, <<"character_complement", Arr(8, <<"u8">>)>>,
                 <<"file_name", <<"chars", 6>>>>, <<"stroke_weight", <<"s8">>>>, <<"width_type", <<"s8">>>>,
                 <<"serif_style", <<"u8">>>>>>)
PSInfo == Rec(<<<<"font_matrix", Arr(6, F64L)>>, <<"force_bold", S32L>>,
               <<"blue_values", Arr(14, S32L)>>, <<"other_blues", Arr(10, S32L)>>,
               <<"family_blues", Arr(14, S32L)>>, <<"family_other_blues", Arr(10, S32L)>>,
               <<"blue_scale", F64L>>>>
              \o All(<<"blue_shift","blue_fuzz","std_hw","std_vw">>, U32L)
              \o <<<<"stem_snap_h", Arr(12, U32L)>>, <<"stem_snap_v", Arr(12, U32L)>>,
                   <<"bounding_box", Rec(All(<<"xMin","yMin","xMax","yMax">>, S16L))>>>>
              \o All(<<"adv_width_min","adv_width_max","adv_width_avg","ascender","descender",
                       "x_height","cap_height">>, S32L))
CMap == Rec(All(<<"language_id","platform_id","encoding_id","format","option">>, N) \o <<<<"page_name", PStr>>>>)

TTNames == [k \in 51..92 |-> CASE k = 51 -> "max_zones" [] k = 52 -> "max_twilight_points"
   [] k = 53 -> "max_storage" [] k = 54 -> "max_function_defs" [] k = 55 -> "max_instruction_defs"
   [] k = 56 -> "max_stack_elements" [] k = 57 -> "head_flags" [] k = 58 -> "head_units_per_em"
   [] k = 59 -> "head_mac_style" [] k = 60 -> "head_lowest_rec_ppem" [] k = 61 -> "head_font_direction_hint"
   [] k = 62 -> "os2_us_weight_class" [] k = 63 -> "os2_us_width_class" [] k = 64 -> "os2_fs_type"
   [] k = 65 -> "os2_y_subscript_x_size" [] k = 66 -> "os2_y_subscript_y_size"
   [] k = 67 -> "os2_y_subscript_x_offset" [] k = 68 -> "os2_y_subscript_y_offset"
   [] k = 69 -> "os2_y_superscript_x_size" [] k = 70 -> "os2_y_superscript_y_size"
   [] k = 71 -> "os2_y_superscript_x_offset" [] k = 72 -> "os2_y_superscript_y_offset"
   [] k = 73 -> "os2_y_strikeout_size" [] k = 74 -> "os2_y_strikeout_position" [] k = 75 -> "os2_s_family_class"
   [] k = 76 -> "OpenTypeOS2Panose" [] k = 77 -> "os2_s_typo_ascender" [] k = 78 -> "os2_s_typo_descender"
   [] k = 79 -> "os2_s_typo_line_gap" [] k = 80 -> "os2_fs_selection" [] k = 81 -> "os2_us_win_ascent"
   [] k = 82 -> "os2_us_win_descent" [] k = 83 -> "Hdmx PPMs 1" [] k = 84 -> "Codepages"
   [] k = 86 -> "head_creation" [] k = 87 -> "head_creation2" [] k = 88 -> "Hdmx PPMs 2"
   [] k = 92 -> "Average Width" [] OTHER -> ""]
TTFmt(k) == CASE k = 57 -> <<"headflags">>
              [] k = 76 -> Arr(10, <<"u8">>)
              [] k \in {83, 88} -> Cnt(<<"u8">>)
              [] k = 84 -> Rec(All(<<"os2_ul_code_page_range1","os2_ul_code_page_range2">>, UN))
              [] OTHER -> N
TTOrder == <<51,52,53,54,55,56,57,58,59,60,86,87>> \o [k \in 1..15 |-> k + 60] \o <<76,77,78,79,80,81,82,92,83,88,84>>
TTRequired == {51,52,53,54,55,56,57,76,84}
\* tagged dictionary: <<"keys", end, table of <<key, name, layout>>, order, required keys>>
TTInfo == <<"keys", 50, [k \in 1..Len(TTOrder) |-> <<TTOrder[k], TTNames[TTOrder[k]], TTFmt(TTOrder[k])>>],
            SetToSeq(TTRequired)>>
HeadOptions == <<"use_custom_tt_values", "create_vdmx", "add_null_cr_space">>

FONames == <<"fit_ascender","fit_descender","auto_metrics_left","auto_metrics_right","auto_metrics_close",
  "auto_hinting_min_h_len","auto_hinting_min_v_len","auto_hinting_min_h_width","auto_hinting_min_v_width",
  "auto_hinting_max_h_width","auto_hinting_max_v_width","auto_hinting_h_ratio","auto_hinting_v_ratio",
  "duplicate_place_x","paste_place_x","opentype_name_records","codepage_for_cmap_1_0",
  "dont_ignore_unicode_indexes","head_bbox_savings","autohinting_options","export_hinted_truetype_font",
  "autohint_unhinted_glyphs","keep_existing_truetype_instructions","export_visual_truetype_hints",
  "apply_bbox_savings","auto_win_asc_desc","add_characters","export_embedded_bitmaps",
  "copy_hdmx_data_from_base_to_composite_glyph","dont_automatically_reorder_glyphs","export_ot","export_volt",
  "write_kern_feature","t1_terminal","t1_pfm","t1_afm","t1_autohint","t1_unicode","optimize_align",
  "optimize_reduce","t1_encoding","ot_write_gdef","t1_use_os2","subrize","t1_sort","export_kern_table",
  "t1_fs_type","expand_kern_flags","expand_kern_codepage","expand_kern_count","decompose">>
FOName(k) == CASE k \in 1..Len(FONames) -> FONames[k] [] k = 114 -> "duplicate_place_y"
               [] k = 115 -> "paste_place_y" [] OTHER -> ToString(k)
AutoHintBits == <<<<"generate_triple_hints", 8>>, <<"generate_delta_instructions", 9>>,
  <<"direct_links_to_center_of_the_glyph_where_possible", 10>>, <<"interpolate_positions_of_cusp_points", 11>>,
  <<"interpolate_positions_of_double_links", 12>>, <<"add_link_to_rsb", 13>>>>
KernBits == <<<<"limit_action", 0>>, <<"limit_codepage", 1>>, <<"limit_cmap_10", 2>>, <<"limit_font_window", 3>>,
  <<"limit_count", 4>>, <<"limit_keep", 5>>, <<"apply_to_assistance", 12>>>>
BitRec(tab, n) == [x \in {tab[k][1] : k \in 1..Len(tab)} |->
                     I(Bit(I(n), tab[CHOOSE k \in 1..Len(tab) : tab[k][1] = x][2]))]
FromBitRec(tab, d) == FoldLeft(LAMBDA a, t : a + (IF d[t[1]][2] = 1 THEN Pow2[t[2]] ELSE 0), 0, tab)

MapModes == <<"names_or_index", "unicode_ranges", "", "codepages">>

(***************************************************************************)
(* Code points of feature code                                             *)
(***************************************************************************)
LineEnds == {10, 13}
Blanks == (9..13) \cup (28..32) \cup {160}
SplitLines(cs) ==
    LET f == FoldLeft(LAMBDA a, ch :
                IF a.cr /\ ch = 10 THEN [a EXCEPT !.cr = FALSE]
                ELSE IF ch \in LineEnds THEN [lines |-> Append(a.lines, a.cur), cur |-> <<>>, cr |-> ch = 13]
                ELSE [lines |-> a.lines, cur |-> Append(a.cur, ch), cr |-> FALSE],
              [lines |-> <<>>, cur |-> <<>>, cr |-> FALSE], cs)
    IN IF f.cur = <<>> THEN f.lines ELSE Append(f.lines, f.cur)
Blank(l) == \A k \in 1..Len(l) : l[k] \in Blanks
\* at most two blank lines in a row; no empty lines at the end except one
FeaLines(cs) ==
    LET all == SplitLines(cs)
        kept == FoldLeft(LAMBDA a, l :
                   IF ~Blank(l) THEN <<Append(a[1], l), 0>>
                   ELSE <<IF a[2] < 2 THEN Append(a[1], l) ELSE a[1], a[2] + 1>>, <<<<>>, 0>>, all)[1]
        ne == {k \in 1..Len(kept) : kept[k] # <<>>}
        last == IF ne = {} THEN 0 ELSE CHOOSE k \in ne : \A j \in ne : k >= j
    IN Append(IF Len(kept) > 1 THEN SubSeq(kept, 1, last) ELSE kept, <<>>)
Join(ls) == FoldLeft(LAMBDA a, k : IF k = 1 THEN ls[1] ELSE a \o <<10>> \o ls[k], <<>>, [k \in 1..Len(ls) |-> k])

(***************************************************************************)
(* Bitmap runs                                                             *)
(***************************************************************************)
\* run-length code in b[p..q]: <<bytes, TRUE>> or <<.., FALSE>> when it is damaged
RECURSIVE Rle(_, _, _)
Rle(b, p, q) ==
    IF p > q THEN <<<<>>, TRUE>>
    ELSE LET v == b[p] IN
         IF v < 128
         THEN IF p + v + 1 > q THEN <<<<>>, FALSE>>
              ELSE LET r == Rle(b, p + v + 2, q) IN <<SubSeq(b, p + 1, p + v + 1) \o r[1], r[2]>>
         ELSE IF p + 1 > q THEN <<<<>>, FALSE>>
              ELSE LET r == Rle(b, p + 2, q) IN <<[k \in 1..(257 - v) |-> b[p + 1]] \o r[1], r[2]>>
RowBytes(w) == ((w \div 16) + (IF w % 16 > 0 THEN 1 ELSE 0)) * 2
Rows(px, w) == LET n == RowBytes(w) IN
    IF n = 0 THEN <<>>
    ELSE [r \in 1..((Len(px) + n - 1) \div n) |-> SubSeq(px, (r - 1) * n + 1, IF r * n > Len(px) THEN Len(px) ELSE r * n)]
\* two characters per pixel: left-one-eighth block pattern
PixelRow(row, w) ==
    LET bits == [k \in 1..8 * Len(row) |-> (row[((k - 1) \div 8) + 1] \div Pow2[7 - ((k - 1) % 8)]) % 2]
        n == IF w < Len(bits) THEN w ELSE Len(bits)
    IN [k \in 1..2 * n |-> LET x == bits[(k + 1) \div 2] IN
          IF x = 1 THEN (IF k % 2 = 1 THEN 9608 ELSE 9609) ELSE (IF k % 2 = 1 THEN 32 ELSE 9621)]
\* a bitmap whose width is known
Bitmap(b, p, n, w, c) ==
    IF n < 0 \/ w < 0 \/ ~Has(b, p, n) THEN Fail
    ELSE LET r == Rle(b, p, p + n - 1)
             px == IF c.platform = "windows" THEN [k \in 1..Len(r[1]) |-> 255 - r[1][k]] ELSE r[1]
             rows == Rows(px, w)
         IN IF ~r[2] \/ (RowBytes(w) = 0 /\ r[1] # <<>>) THEN Fail
            ELSE <<D([data |-> L([k \in 1..Len(rows) |-> L([j \in 1..Len(rows[k]) |-> I(rows[k][j])])]),
                      preview |-> L([k \in 1..Len(rows) |-> <<"s", PixelRow(rows[k], w)>>])]), p + n>>

(***************************************************************************)
(* Outlines: relative coordinates, per master                              *)
(***************************************************************************)
PathCmd == <<"move", "line", "", "curve", "qcurve">>
OutNodes(b, p0, n, m) ==
    \* acc: nodes, position, current x and y of every master
    LET one(acc) ==
          IF ~Has(b, acc[2], 1) \/ (b[acc[2]] % 16) \notin {0, 1, 3, 4} THEN <<acc[1], -1, acc[3]>>
          ELSE LET cmd == b[acc[2]] % 16
                   npt == IF cmd = 3 THEN 3 ELSE 1
                   pts == FoldLeft(LAMBDA a, k :
                       IF a[2] < 0 THEN a
                       ELSE LET x == Num(b, a[2]) IN
                            IF x[2] < 0 THEN <<a[1], -1, a[3]>>
                            ELSE LET y == Num(b, x[2])
                                     j == ((k - 1) % m) + 1
                                 IN  IF y[2] < 0 THEN <<a[1], -1, a[3]>>
                                     ELSE LET q == <<a[3][j][1] + x[1][2], a[3][j][2] + y[1][2]>>
                                          IN <<[a[1] EXCEPT ![j] = Append(@, L(<<I(q[1]), I(q[2])>>))], y[2],
                                               [a[3] EXCEPT ![j] = q]>>,
                       <<[j \in 1..m |-> <<>>], acc[2] + 1, acc[3]>>, [k \in 1..npt * m |-> k])
               IN IF pts[2] < 0 THEN <<acc[1], -1, acc[3]>>
                  ELSE <<Append(acc[1], D([type |-> <<"w", PathCmd[cmd + 1]>>, flags |-> I(b[acc[2]] \div 16),
                                           points |-> L([j \in 1..m |-> L(pts[1][j])])])), pts[2], pts[3]>>
    IN FoldLeft(LAMBDA acc, k : IF acc[2] < 0 THEN acc ELSE one(acc),
                <<<<>>, p0, [j \in 1..m |-> <<0, 0>>]>>, [k \in 1..n |-> k])
\* -> <<fields, next>>; the number of values is twice the number of numbers that follow
Outlines(b, p) ==
    LET m == UNum(b, p)
        nv == Num(b, m[2])
        n == Num(b, nv[2])
    IN  IF m[2] < 0 \/ nv[2] < 0 \/ n[2] < 0 \/ ~IsInt(m[1]) \/ m[1][2] \notin 0..255
           \/ n[1][2] < 0 \/ n[1][2] > Len(b) THEN Fail
        ELSE LET r == OutNodes(b, n[2], n[1][2], m[1][2]) IN
             IF r[2] < 0 THEN Fail
             ELSE <<[num_masters |-> m[1], nodes |-> L(r[1])], r[2]>>
CmdNo(w) == CASE w = "move" -> 0 [] w = "line" -> 1 [] w = "curve" -> 3 [] w = "qcurve" -> 4
EncOutlines(val) ==
    LET m == val.num_masters[2]
        nodes == IF "nodes" \in DOMAIN val THEN val.nodes[2] ELSE <<>>
        f == FoldLeft(LAMBDA a, nd :
               LET pts == nd[2].points[2]
                   k == IF m = 0 THEN 0 ELSE Len(pts[1][2])
                   g == FoldLeft(LAMBDA a2, i :
                          LET pn == ((i - 1) \div m) + 1
                              j == ((i - 1) % m) + 1
                              x == pts[j][2][pn][2][1][2]
                              y == pts[j][2][pn][2][2][2]
                          IN <<a2[1] \o EncNum(x - a2[2][j][1]) \o EncNum(y - a2[2][j][2]),
                               [a2[2] EXCEPT ![j] = <<x, y>>]>>,
                        <<<<16 * nd[2].flags[2] + CmdNo(nd[2].type[2])>>, a[2]>>, [i \in 1..k * m |-> i])
               IN <<a[1] \o g[1], g[2], a[3] + 1 + 2 * k * m>>,
             <<<<>>, [j \in 1..m |-> <<0, 0>>], 0>>, nodes)
    IN EncNum(m) \o EncNum(2 * f[3]) \o EncNum(Len(nodes)) \o f[1]

(***************************************************************************)
(* Special kinds                                                           *)
(***************************************************************************)
RECURSIVE Dec0(_, _, _, _), X(_, _, _, _), Enc0(_, _, _), XE(_, _, _)
GdefClasses == <<"unassigned", "base", "ligature", "mark", "component">>
DropEmpty(r) == [k \in {k \in DOMAIN r : r[k] # L(<<>>)} |-> r[k]]
HexDigit2(x) == <<Hex[(x \div 16) + 1], Hex[(x % 16) + 1]>>
RECURSIVE GuideProps(_, _, _)
GuideProps(b, p, acc) ==
    LET i == Num(b, p) IN
    IF i[2] < 0 THEN Fail
    ELSE IF i[1][2] = 0 THEN <<L(acc), i[2]>>
    ELSE LET col == Num(b, i[2])
             nm == Dec0(PStr, b, col[2], <<>>)
         IN  IF col[2] < 0 \/ nm[2] < 0 \/ col[1][2] > 16777215 THEN Fail
             ELSE LET n == col[1][2]
                      full == [index |-> i[1], name |-> nm[1],
                               color |-> <<"s", <<35>> \o HexDigit2(n % 256) \o HexDigit2((n \div 256) % 256)
                                                 \o HexDigit2((n \div 65536) % 256)>>]
                      keys == {"index"} \cup (IF n >= 0 THEN {"color"} ELSE {})
                              \cup (IF nm[1][2] # <<>> THEN {"name"} ELSE {})
                  IN GuideProps(b, nm[2], Append(acc, D([k \in keys |-> full[k]])))
EncGuideProp(g) ==
    EncNum(g.index[2])
    \o (IF "color" \in DOMAIN g
        THEN LET cs == g.color[2] v(k) == 16 * HexVal(cs[k]) + HexVal(cs[k + 1])
             IN EncLong(v(6) * 65536 + v(4) * 256 + v(2))
        ELSE EncNum(-1))
    \o (IF "name" \in DOMAIN g THEN EncNum(Len(g.name[2])) \o TextBytes(g.name[2]) ELSE EncNum(0))

\* key-value fields up to the end key, collected in file order; the last value of a key counts
SetField(fields, nm, v) ==
    IF \E k \in 1..Len(fields) : fields[k][1] = nm
    THEN [k \in 1..Len(fields) |-> IF fields[k][1] = nm THEN <<nm, v>> ELSE fields[k]]
    ELSE Append(fields, <<nm, v>>)
\* R(key, b, p) -> <<name, value, next>> or <<"", .., -1>>
KeyFields(R(_, _, _), end, b, p0, acc0) ==
    LET f == FoldLeft(LAMBDA a, k :
                IF a[3] # 0 THEN a
                ELSE IF ~Has(b, a[2], 1) THEN <<a[1], a[2], 2>>
                ELSE IF b[a[2]] = end THEN <<a[1], a[2] + 1, 1>>
                ELSE LET r == R(b[a[2]], b, a[2] + 1) IN
                     IF r[3] < 0 THEN <<a[1], a[2], 2>> ELSE <<SetField(a[1], r[1], r[2]), r[3], 0>>,
              <<acc0, p0, 0>>, [k \in 1..Len(b) + 1 |-> k])
    IN IF f[3] = 1 THEN <<f[1], f[2]>> ELSE Fail

(***************************************************************************)
(* The two meanings of a layout                                            *)
(***************************************************************************)
Dec0(f, b, p, c) ==
  IF p < 0 THEN Fail ELSE
  CASE f[1] = "num" -> Num(b, p)
    [] f[1] = "rec" ->
        LET r == Dec0(<<"tup", [k \in 1..Len(f[2]) |-> f[2][k][2]]>>, b, p, c) IN
        IF r[2] < 0 THEN Fail
        ELSE <<D([n \in {f[2][k][1] : k \in 1..Len(f[2])} |->
                   r[1][2][CHOOSE k \in 1..Len(f[2]) : f[2][k][1] = n]]), r[2]>>
    [] f[1] = "tup" ->
        LET r == FoldLeft(LAMBDA acc, g :
                    IF acc[2] < 0 THEN acc
                    ELSE LET x == Dec0(g, b, acc[2], c) IN
                         IF x[2] < 0 THEN <<acc[1], -1>> ELSE <<Append(acc[1], x[1]), x[2]>>,
                  <<<<>>, p>>, f[2])
        IN IF r[2] < 0 THEN Fail ELSE <<L(r[1]), r[2]>>
    [] f[1] = "unum" -> UNum(b, p)
    [] f[1] = "u8" -> U8(b, p) [] f[1] = "s8" -> S8(b, p)
    [] f[1] = "u16" -> U16(b, p) [] f[1] = "s16" -> S16(b, p)
    [] f[1] = "s32" -> S32(b, p) [] f[1] = "u32" -> U32(b, p)
    [] f[1] = "f64" -> F64(b, p)
    [] f[1] = "arr" -> Times(LAMBDA b2, p2 : Dec0(f[3], b2, p2, c), b, p, RepN(f[2], c))
    [] f[1] = "cnt" -> Counted(LAMBDA b2, p2 : Dec0(f[2], b2, p2, c), b, p)
    [] f[1] = "end" -> UntilEnd(LAMBDA b2, p2 : Dec0(f[2], b2, p2, c), b, p)
    [] f[1] \in {"q", "slope"} -> LET r == Num(b, p) IN
                  IF r[2] < 0 THEN Fail
                  ELSE IF f[1] = "q" THEN <<<<"q", f[2], r[1][2]>>, r[2]>> ELSE <<<<"ang", r[1][2]>>, r[2]>>
    [] f[1] = "map" ->
        LET r == Dec0(<<"tup", [k \in 1..Len(f[2]) |-> f[2][k][2]]>>, b, p, c) IN
        IF r[2] < 0 THEN Fail
        ELSE <<<<"m", [k \in 1..Len(f[2]) |-> <<I(f[2][k][1]), r[1][2][k]>>]>>, r[2]>>
    [] f[1] \in {"idx", "cidx"} ->
        LET r == IF f[1] = "idx" THEN Counted(LAMBDA b2, p2 : Dec0(f[2], b2, p2, c), b, p)
                 ELSE Times(LAMBDA b2, p2 : Dec0(f[2], b2, p2, c), b, p, RepN(f[4], c))
        IN IF r[2] < 0 THEN Fail
           ELSE <<L([k \in 1..Len(r[1][2]) |-> D(r[1][2][k][2] @@ (f[3] :> I(k - 1)))]), r[2]>>
    [] f[1] = "chars" -> IF Has(b, p, f[2]) THEN AsText(b, p, p + f[2] - 1, p + f[2]) ELSE Fail
    [] f[1] = "bstr" -> IF Has(b, p, 1) /\ Has(b, p + 1, b[p]) THEN AsText(b, p + 1, p + b[p], p + 1 + b[p]) ELSE Fail
    [] f[1] = "pstr" -> LET r == UNum(b, p) IN
            IF r[2] < 0 \/ ~IsInt(r[1]) THEN Fail
            ELSE LET n == r[1][2] IN IF n < 0 \/ n > Len(b) \/ ~Has(b, r[2], n) THEN Fail
                                     ELSE AsText(b, r[2], r[2] + n - 1, r[2] + n)
    [] f[1] = "tail" -> AsText(b, p, Len(b), Len(b) + 1)
    [] f[1] = "ztail" -> LET t == Text(b, p, Len(b)) IN
            IF t = Bad THEN Fail ELSE <<<<"s", StripZ(t[2])>>, Len(b) + 1>>
    [] f[1] = "hex" -> <<<<"s", HexText(SubSeq(b, p, Len(b)))>>, Len(b) + 1>>
    [] f[1] = "bits" ->
        LET r == Dec0(f[2], b, p, c) IN
        IF r[2] < 0 THEN Fail
        ELSE <<L([k \in 1..Len(BitList(r[1])) |->
                    LET n == BitList(r[1])[k] IN
                    IF NameOf(f[3], n) = "" THEN (IF f[4] = "str" THEN <<"w", ToString(n)>> ELSE I(n))
                    ELSE <<"w", NameOf(f[3], n)>>]), r[2]>>
    [] f[1] = "flags" ->  \* f[3]: <<name, bit>> pairs
        LET r == Dec0(f[2], b, p, c) IN
        IF r[2] < 0 THEN Fail
        ELSE LET on == {BitList(r[1])[k] : k \in 1..Len(BitList(r[1]))}
                 nm == {k \in 1..Len(f[3]) : f[3][k][2] \in on}
                 rest == SelectSeq(BitList(r[1]), LAMBDA n : \A k \in 1..Len(f[3]) : f[3][k][2] # n)
             IN <<D([x \in {f[3][k][1] : k \in nm} \cup {"other"} |->
                      IF x = "other" THEN L([k \in 1..Len(rest) |-> I(rest[k])]) ELSE I(1)]), r[2]>>
    [] f[1] = "const" -> <<f[2], p>>
    [] OTHER -> X(f, b, p, c)

\* position of a named or numbered bit
BitNo(f, w) == IF w[1] = "i" THEN w[2]
               ELSE IF \E k \in 1..Len(f[3]) : f[3][k] = w[2] THEN IndexOf(f[3], w[2]) - 1
               ELSE CHOOSE n \in 0..31 : ToString(n) = w[2]

Enc0(f, v, c) ==
  CASE f[1] \in {"num", "unum"} -> EncTagged(v)
    [] f[1] = "rec" -> Cat([k \in 1..Len(f[2]) |-> Enc0(f[2][k][2], v[2][f[2][k][1]], c)])
    [] f[1] = "tup" -> Cat([k \in 1..Len(f[2]) |-> Enc0(f[2][k], v[2][k], c)])
    [] f[1] \in {"u8", "s8"} -> <<v[2] % 256>>
    [] f[1] \in {"u16", "s16"} -> Le16(v[2] % 65536)
    [] f[1] \in {"u32", "s32"} -> Le32(v)
    [] f[1] = "f64" -> v[2]
    [] f[1] \in {"arr", "end"} ->
        LET g == IF f[1] = "arr" THEN f[3] ELSE f[2] IN
        Cat([k \in 1..Len(v[2]) |-> Enc0(g, v[2][k], c)])
    [] f[1] \in {"cnt", "idx"} ->
        EncNum(Len(v[2])) \o Cat([k \in 1..Len(v[2]) |-> Enc0(f[2], v[2][k], c)])
    [] f[1] = "cidx" -> Cat([k \in 1..Len(v[2]) |-> Enc0(f[2], v[2][k], c)])
    [] f[1] = "q" -> EncNum(v[3])
    [] f[1] = "slope" -> EncNum(v[2])
    [] f[1] = "map" -> Cat([k \in 1..Len(f[2]) |-> Enc0(f[2][k][2], v[2][k][2], c)])
    [] f[1] \in {"chars", "tail"} -> TextBytes(v[2])
    [] f[1] = "ztail" -> LET t == TextBytes(v[2]) IN
            IF Len(t) < f[2] THEN t \o [k \in 1..(f[2] - Len(t)) |-> 0] ELSE t
    [] f[1] = "bstr" -> <<Len(v[2])>> \o TextBytes(v[2])
    [] f[1] = "pstr" -> EncNum(Len(v[2])) \o TextBytes(v[2])
    [] f[1] = "hex" -> HexBytes(v[2])
    [] f[1] = "bits" -> Enc0(f[2], (IF f[2][1] = "num" THEN SOf({BitNo(f, v[2][k]) : k \in 1..Len(v[2])})
                                       ELSE UOf({BitNo(f, v[2][k]) : k \in 1..Len(v[2])})), c)
    [] f[1] = "flags" -> Enc0(f[2], UOf({v[2]["other"][2][k][2] : k \in 1..Len(v[2]["other"][2])}
                              \cup {f[3][k][2] : k \in {k \in 1..Len(f[3]) : f[3][k][1] \in DOMAIN v[2]}}), c)
    [] f[1] = "const" -> <<>>
    [] OTHER -> XE(f, v, c)

X(f, b, p, c) ==
  CASE f[1] = "flversion" ->
       LET r == KeyFields(LAMBDA k, b2, p2 : LET v == Num(b2, p2) IN
                             IF v[2] < 0 THEN <<"", None, -1>> ELSE <<k, v[1], v[2]>>, 0, b, p, <<>>)
           get(k, d) == LET h == {j \in 1..Len(r[1]) : r[1][j][1] = k} IN
                        IF h = {} THEN d ELSE (r[1][CHOOSE j \in h : TRUE][2])[2]
       IN  IF r[2] < 0 \/ get(1, 1) \notin {0, 1} THEN Fail
           ELSE <<D([platform |-> <<"w", IF get(1, 1) = 0 THEN "windows" ELSE "macos">>,
                     version |-> L([k \in 1..4 |-> I(ByteOf(get(2, 84017792), 4 - k))]),
                     owner |-> I(get(3, 0))]), r[2]>>
    [] f[1] = "keys" ->
       LET r == KeyFields(LAMBDA k, b2, p2 :
                     LET h == {j \in 1..Len(f[3]) : f[3][j][1] = k} IN
                     IF h = {} THEN <<"", None, -1>>
                     ELSE LET t == f[3][CHOOSE j \in h : TRUE]
                              v == Dec0(t[3], b2, p2, c)
                          IN IF v[2] < 0 THEN <<"", None, -1>> ELSE <<t[2], v[1], v[2]>>, f[2], b, p, <<>>)
           \* a key that occurs twice, or that is missing, is damage
           n == Cardinality({q \in p..Len(b) : FALSE})
           names == {r[1][k][1] : k \in 1..Len(r[1])}
       IN  IF r[2] < 0 THEN Fail
           ELSE IF \E j \in 1..Len(f[3]) : f[3][j][1] \in Range(f[4]) /\ f[3][j][2] \notin names THEN Fail
           ELSE <<D([x \in names |-> r[1][CHOOSE k \in 1..Len(r[1]) : r[1][k][1] = x][2]]), r[2]>>
    [] f[1] = "headflags" ->
       LET r == Num(b, p)
           bs == BitList(r[1])
           lo == SelectSeq(bs, LAMBDA k : k < 16)
           hi == SelectSeq(bs, LAMBDA k : k >= 16)
       IN IF r[2] < 0 THEN Fail
          ELSE <<D([flags |-> L([k \in 1..Len(lo) |-> I(lo[k])]),
                    options |-> L([k \in 1..Len(hi) |->
                        <<"w", IF NameOf(HeadOptions, hi[k] - 16) # "" THEN NameOf(HeadOptions, hi[k] - 16)
                               ELSE ToString(hi[k] - 16)>>])]), r[2]>>
    [] f[1] = "fontoptions" ->
       LET r == KeyFields(LAMBDA k, b2, p2 :
                     LET v == Num(b2, p2)
                         n == v[1][2]
                     IN IF v[2] < 0 THEN <<"", None, -1>>
                        ELSE <<FOName(k),
                               CASE k \in {12, 13} -> <<"q", 4, n>>
                                 [] k = 20 -> D(BitRec(AutoHintBits, n) @@ ("single_link_attachment_precision" :> I(n % 8)))
                                 [] k = 48 -> D(BitRec(KernBits, n))
                                 [] OTHER -> v[1], v[2]>>, 100, b, p, <<>>)
       IN IF r[2] < 0 THEN Fail ELSE <<<<"od", r[1]>>, r[2]>>
    [] f[1] = "mapmode" ->
       LET r == KeyFields(LAMBDA k, b2, p2 : LET v == Num(b2, p2) IN
                     IF v[2] < 0 \/ k \notin 1..4 THEN <<"", None, -1>> ELSE <<k, v[1], v[2]>>, 0, b, p, <<>>)
           get(k) == r[1][CHOOSE j \in 1..Len(r[1]) : r[1][j][1] = k][2]
       IN IF r[2] < 0 \/ {r[1][j][1] : j \in 1..Len(r[1])} # 1..4 THEN Fail
          ELSE LET m == get(1)[2] IN
               <<D([mapping_mode |-> <<"w", IF m >= 0 /\ NameOf(MapModes, m) # "" THEN NameOf(MapModes, m) ELSE ToString(m)>>,
                    m2 |-> get(2), m3 |-> get(3), mapping_id |-> get(4)]), r[2]>>
    [] f[1] = "features" ->
       LET t == Text(b, p, Len(b)) IN
       IF t = Bad THEN Fail
       ELSE LET ls == FeaLines(t[2]) IN <<L([k \in 1..Len(ls) |-> <<"s", ls[k]>>]), Len(b) + 1>>
    [] f[1] = "namerec" ->
       LET r == Dec0(Tup(<<N, N, N, N, Cnt(N)>>), b, p, c) IN
       IF r[2] < 0 THEN Fail
       ELSE LET v == r[1][2]
                mac == v[2][2] = 1 /\ v[3][2] = 0
                cs == [k \in 1..Len(v[5][2]) |-> v[5][2][k][2]]
            IN IF \E k \in 1..Len(cs) : cs[k] < 0 \/ cs[k] > (IF mac THEN 255 ELSE 1114111) THEN Fail
               ELSE <<L(<<v[1], v[2], v[3], v[4],
                          <<"s", [k \in 1..Len(cs) |-> IF mac THEN Mac[cs[k] + 1] ELSE cs[k]]>>>>), r[2]>>
    [] f[1] = "zonedeltas" ->
       LET r == Dec0(Cnt(Tup(<<N, N, N>>)), b, p, c) IN
       IF r[2] < 0 THEN Fail
       ELSE LET es == r[1][2]
                zs == SetToSortSeq({es[k][2][1][2] : k \in 1..Len(es)}, <)
                ofz(z) == SelectSeq(es, LAMBDA e : e[2][1][2] = z)
                pp(z) == SetToSortSeq({ofz(z)[k][2][2][2] : k \in 1..Len(ofz(z))}, <)
                lst(z, q) == LET s == SelectSeq(ofz(z), LAMBDA e : e[2][2][2] = q) IN s[Len(s)][2][3]
            IN <<<<"m", [k \in 1..Len(zs) |->
                   <<I(zs[k]), <<"m", [j \in 1..Len(pp(zs[k])) |-> <<I(pp(zs[k])[j]), lst(zs[k], pp(zs[k])[j])>>]>>>>]>>, r[2]>>
    [] f[1] = "classflags" ->
       LET r == Dec0(Cnt(Tup(<<PStr, Tup([k \in 1..f[2] |-> N])>>)), b, p, c) IN
       IF r[2] < 0 THEN Fail
       ELSE <<<<"sd", FoldLeft(LAMBDA a, e : SetField(a, e[2][1][2], e[2][2]), <<>>, r[1][2])>>, r[2]>>
    [] f[1] = "guideprops" ->
       LET h == GuideProps(b, p, <<>>)
           v == GuideProps(b, h[2], <<>>)
       IN IF h[2] < 0 \/ v[2] < 0 THEN Fail ELSE <<D([h |-> h[1], v |-> v[1]]), v[2]>>
    [] f[1] = "gdef" ->
       LET A == Tup(<<PStr, N, N, N, N>>)
           r == Dec0(Tup(<<N, Cnt(A), Cnt(Tup(<<N, N>>)), Cnt(N)>>), b, p, c)
       IN IF r[2] < 0 THEN Fail
          ELSE LET v == r[1][2]
                   as == v[2][2]
                   an(k) == LET a == as[k][2] d == [name |-> a[1], x |-> a[2], y |-> a[4]] IN
                            D([q \in (IF a[1][2] = <<>> THEN {"x", "y"} ELSE {"name", "x", "y"}) |-> d[q]])
                   full == [anchors |-> L([k \in 1..Len(as) |-> an(k)]), carets |-> v[3], ot_classes |-> v[4],
                            glyph_class |-> IF v[1][2] = 0 THEN L(<<>>) ELSE <<"w", GdefClasses[v[1][2] + 1]>>]
               IN IF v[1][2] \notin 0..4
                     \/ \E k \in 1..Len(as) : as[k][2][3] # I(-1) \/ as[k][2][5] # I(-1) THEN Fail
                  ELSE <<D(DropEmpty(full)), r[2]>>
    [] f[1] = "anchors" ->
       LET n == Num(b, p)
           m == Num(b, n[2])
       IN IF n[2] < 0 \/ m[2] < 0 \/ n[1][2] < 0 \/ n[1][2] > Len(b) \/ m[1][2] # c.masters THEN Fail
          ELSE LET r == Times(LAMBDA b2, p2 : Dec0(ArrC("masters", Tup(<<N, N>>)), b2, p2, c), b, m[2], n[1][2])
               IN IF r[2] < 0 THEN Fail
                  ELSE <<L([k \in 1..n[1][2] |->
                        D([x |-> L([j \in 1..c.masters |-> r[1][2][k][2][j][2][1]]),
                           y |-> L([j \in 1..c.masters |-> r[1][2][k][2][j][2][2]])])]), r[2]>>
    [] f[1] = "outlines" ->
       LET r == Outlines(b, p) IN IF r[2] < 0 THEN Fail ELSE <<D(r[1]), r[2]>>
    [] f[1] = "mask" ->
       LET w == Dec0(Cnt(<<"q", 8>>), b, p, c)
           r == Outlines(b, w[2])
       IN IF w[2] < 0 \/ r[2] < 0 THEN Fail ELSE <<D(r[1] @@ ("weight_vector" :> w[1])), r[2]>>
    [] f[1] = "links" ->
       LET r == Dec0(Tup(<<Cnt(Tup(<<N, N>>)), Cnt(Tup(<<N, N>>))>>), b, p, c) IN
       IF r[2] < 0 THEN Fail ELSE <<D([y |-> r[1][2][1], x |-> r[1][2][2]]), r[2]>>
    [] f[1] = "background" ->
       LET r == Dec0(Tup(<<Tup(<<N, N>>), Tup(<<UN, UN>>), Tup(<<UN, UN>>), UN>>), b, p, c) IN
       IF r[2] < 0 \/ ~IsInt(r[1][2][4]) \/ ~IsInt(r[1][2][3][2][1]) THEN Fail
       ELSE LET bm == Bitmap(b, r[2], r[1][2][4][2], r[1][2][3][2][1][2], c) IN
            IF bm[2] < 0 THEN Fail
            ELSE <<D([origin |-> r[1][2][1], size_units |-> r[1][2][2], size_pixels |-> r[1][2][3],
                      bitmap |-> bm[1]]), bm[2]>>
    [] f[1] = "gbitmap" ->
       LET r == Dec0(Tup(<<UN, Tup(<<N, N>>), Tup(<<UN, UN>>), Tup(<<UN, UN>>), N>>), b, p, c) IN
       IF r[2] < 0 \/ ~IsInt(r[1][2][4][2][1]) THEN Fail
       ELSE LET bm == Bitmap(b, r[2], r[1][2][5][2], r[1][2][4][2][1][2], c) IN
            IF bm[2] < 0 THEN Fail
            ELSE <<D([ppm |-> r[1][2][1], origin |-> r[1][2][2], adv |-> r[1][2][3],
                      size_pixels |-> r[1][2][4], bitmap |-> bm[1]]), bm[2]>>
    [] f[1] = "bits128" ->
       IF Len(b) # 16 \/ p # 1 THEN Fail
       ELSE LET bs == SelectSeq([k \in 1..128 |-> k - 1], LAMBDA k : (b[(k \div 8) + 1] \div Pow2[k % 8]) % 2 = 1)
            IN <<L([k \in 1..Len(bs) |-> I(bs[k])]), 17>>
    [] f[1] = "emptystr" -> IF AtEnd(b, p) THEN <<<<"s", <<>>>>, p>> ELSE Fail
    [] OTHER -> Fail

XE(f, v, c) ==
  CASE f[1] = "flversion" ->
       <<1, 139 + (IF v[2].platform[2] = "macos" THEN 1 ELSE 0), 2, 255>>
       \o [k \in 1..4 |-> v[2].version[2][k][2]] \o <<3>> \o EncTagged(v[2].owner) \o <<0>>
    [] f[1] = "keys" ->
       Cat([k \in 1..Len(f[3]) |-> IF f[3][k][2] \in DOMAIN v[2]
                                   THEN <<f[3][k][1]>> \o Enc0(f[3][k][3], v[2][f[3][k][2]], c) ELSE <<>>]) \o <<f[2]>>
    [] f[1] = "headflags" ->
       EncTagged(SOf({v[2].flags[2][k][2] : k \in 1..Len(v[2].flags[2])}
             \cup {LET w == v[2].options[2][k][2] IN
                   16 + (IF \E j \in 1..3 : HeadOptions[j] = w THEN IndexOf(HeadOptions, w) - 1
                         ELSE CHOOSE n \in 0..15 : ToString(n) = w) : k \in 1..Len(v[2].options[2])}))
    [] f[1] = "fontoptions" ->
       Cat([j \in 1..Len(v[2]) |->
              LET k == CHOOSE k \in 0..255 : FOName(k) = v[2][j][1]
                  w == v[2][j][2]
              IN <<k>> \o (CASE k \in {12, 13} -> EncNum(w[3])
                             [] k = 20 -> EncNum(FromBitRec(AutoHintBits, w[2]) + w[2].single_link_attachment_precision[2])
                             [] k = 48 -> EncNum(FromBitRec(KernBits, w[2]))
                             [] OTHER -> EncTagged(w))]) \o <<100>>
    [] f[1] = "mapmode" ->
       LET w == v[2].mapping_mode[2]
           m == IF \E j \in 1..4 : MapModes[j] = w THEN EncNum(IndexOf(MapModes, w) - 1)
                ELSE <<>>  \* an unnamed mode: no canonical form is claimed
       IN <<1>> \o m \o <<2>> \o EncTagged(v[2].m2) \o <<3>> \o EncTagged(v[2].m3) \o <<4>> \o EncTagged(v[2].mapping_id) \o <<0>>
    [] f[1] = "features" -> TextBytes(Join([k \in 1..Len(v[2]) |-> v[2][k][2]]))
    [] f[1] = "namerec" ->
       LET w == v[2]
           mac == w[2][2] = 1 /\ w[3][2] = 0
           cs == w[5][2]
       IN EncTagged(w[1]) \o EncTagged(w[2]) \o EncTagged(w[3]) \o EncTagged(w[4]) \o EncNum(Len(cs))
          \o Cat([k \in 1..Len(cs) |-> EncNum(IF mac THEN MacRev[cs[k]] ELSE cs[k])])
    [] f[1] = "zonedeltas" ->
       EncNum(FoldLeft(LAMBDA a, z : a + Len(z[2][2]), 0, v[2]))
       \o Cat([k \in 1..Len(v[2]) |-> Cat([j \in 1..Len(v[2][k][2][2]) |->
             EncTagged(v[2][k][1]) \o EncTagged(v[2][k][2][2][j][1]) \o EncTagged(v[2][k][2][2][j][2])])])
    [] f[1] = "classflags" ->
       EncNum(Len(v[2])) \o Cat([k \in 1..Len(v[2]) |->
            EncNum(Len(v[2][k][1])) \o TextBytes(v[2][k][1])
            \o Cat([j \in 1..f[2] |-> EncTagged(v[2][k][2][2][j])])])
    [] f[1] = "guideprops" ->
       Cat([k \in 1..Len(v[2].h[2]) |-> EncGuideProp(v[2].h[2][k][2])]) \o <<139>>
       \o Cat([k \in 1..Len(v[2].v[2]) |-> EncGuideProp(v[2].v[2][k][2])]) \o <<139>>
    [] f[1] = "gdef" ->
       LET has(k) == k \in DOMAIN v[2]
           lst(k) == IF has(k) THEN v[2][k][2] ELSE <<>>
           an(a) == (IF "name" \in DOMAIN a THEN EncNum(Len(a.name[2])) \o TextBytes(a.name[2]) ELSE EncNum(0))
                    \o EncTagged(a.x) \o EncNum(-1) \o EncTagged(a.y) \o EncNum(-1)
       IN EncNum(IF has("glyph_class") THEN IndexOf(GdefClasses, v[2].glyph_class[2]) - 1 ELSE 0)
          \o EncNum(Len(lst("anchors"))) \o Cat([k \in 1..Len(lst("anchors")) |-> an(lst("anchors")[k][2])])
          \o EncNum(Len(lst("carets")))
          \o Cat([k \in 1..Len(lst("carets")) |-> EncTagged(lst("carets")[k][2][1]) \o EncTagged(lst("carets")[k][2][2])])
          \o EncNum(Len(lst("ot_classes"))) \o Cat([k \in 1..Len(lst("ot_classes")) |-> EncTagged(lst("ot_classes")[k])])
    [] f[1] = "anchors" ->
       EncNum(Len(v[2])) \o EncNum(c.masters)
       \o Cat([k \in 1..Len(v[2]) |-> Cat([j \in 1..c.masters |->
              EncTagged(v[2][k][2].x[2][j]) \o EncTagged(v[2][k][2].y[2][j])])])
    [] f[1] = "outlines" -> EncOutlines(v[2])
    [] f[1] = "mask" -> Enc0(Cnt(<<"q", 8>>), v[2].weight_vector, c) \o EncOutlines(v[2])
    [] f[1] = "links" -> Enc0(Cnt(Tup(<<N, N>>)), v[2].y, c) \o Enc0(Cnt(Tup(<<N, N>>)), v[2].x, c)
    [] f[1] = "bits128" ->
       LET bs == {v[2][k][2] : k \in 1..Len(v[2])} IN
       [j \in 1..16 |-> FoldLeft(LAMBDA a, k : IF (8 * (j - 1) + k) \in bs THEN a + Pow2[k] ELSE a, 0, <<0,1,2,3,4,5,6,7>>)]
    [] OTHER -> <<>>

(***************************************************************************)
(* The record types: <<identifier, layout>>          *)
(***************************************************************************)
Of(ids, f) == [k \in 1..Len(ids) |-> <<ids[k], f>>]
FontRecords ==
     Of(<<1, 4, 262, 2030, 1261, 1262, 1263, 513, 271, 527, 272, 528, 5, 2>>, <<"hex">>)
  \o Of(<<1503, 1502, 1034, 1031, 1054, 1134, 1132, 1130, 1131, 1135, 1090, 1530, 1531, 1532, 1533, 1534,
          1535, 1267, 1057, 1058, 1060, 2022, 1513, 1270, 1272, 1274, 1275, 1604>>, U16L)
  \o Of(<<518, 257>>, <<"emptystr">>)
  \o Of(<<1048, 1030, 1278, 1279, 2032>>, S16L) \o Of(<<1044>>, S32L) \o Of(<<1029, 1047>>, F64L)
  \o Of(<<1517, 1247>>, <<"end", F64L>>) \o Of(<<1133>>, <<"end", U32L>>)
  \o Of(<<1026, 1046, 1038, 1025, 1027, 1024, 1056, 1092, 1028, 1065, 1069, 1070, 1037, 1061, 1062, 1063, 1064,
          1039, 1128, 1129, 1127, 1137, 1139, 1140, 1059, 2025, 2016, 1277, 1514, 1066, 1504>>, Str)
  \o Of(<<1121>>, <<"ztail", 4>>) \o Of(<<1118>>, Arr(10, <<"s8">>))
  \o Of(<<1501, 1500>>, Tup(<<U16L, <<"tail">>>>))
  \o Of(<<10>>, <<"flversion">>) \o Of(<<1264>>, TTInfo) \o Of(<<1743>>, <<"fontoptions">>)
  \o Of(<<1744>>, <<"bits", U16L, <<"use_custom_opentype_export_options", "use_default_opentype_export_options",
                                   "use_custom_cmap_encoding">>, "int">>)
  \o Of(<<1742>>, <<"mapmode">>) \o Of(<<1276>>, <<"features">>) \o Of(<<1138>>, Cnt(<<"namerec">>))
  \o Of(<<1141>>, Cnt(CMap)) \o Of(<<1136>>, Pclt) \o Of(<<1068>>, Cnt(N))
  \o Of(<<1093>>, <<"flags", U16L, <<<<"generate_flex", 0>>>>>>)
  \o Of(<<2024>>, <<"classflags", 3>>) \o Of(<<2026>>, <<"classflags", 2>>)
  \o Of(<<2014>>, Rec(<<<<"tag", <<"chars", 4>>>>, <<"data", <<"hex">>>>>>))
  \o Of(<<2021>>, <<"bits128">>)
  \o Of(<<1515>>, Arr(4, U32L)) \o Of(<<1516>>, <<"end", Tup(<<F64L, F64L>>)>>)
  \o Of(<<1523>>, <<"end", Cnt(Tup(<<N, N>>))>>)
  \o Of(<<1254>>, Cnt(Rec(<<<<"name", PStr>>, <<"values", Arr(4, <<"q", 4>>)>>>>)))
  \o Of(<<1294>>, Guides) \o Of(<<1296>>, <<"guideprops">>) \o Of(<<1295>>, <<"outlines">>)
  \o Of(<<1265>>, <<"end", Rec(<<<<"maxPpem", U16L>>, <<"flags", U16L>>>>)>>)
  \o Of(<<1271>>, Cnt(Rec(All(<<"pelHeight", "max", "min">>, N))))
  \o Of(<<1269>>, Rec(All(<<"ttStemsV", "ttStemsH">>, Cnt(Stem6))))
  \o Of(<<1268>>, Rec(All(<<"ttStemsV", "ttStemsH">>, <<"idx", Rounds(<<2, 3, 4, 5>>), "stem">>)))
  \o Of(<<1266>>, Rec(All(<<"ttStemsV", "ttStemsH">>, <<"idx", Rounds(<<2, 3>>), "stem">>)))
  \o Of(<<1524>>, Rec(<<<<"ttStemsV", <<"cidx", Rounds(<<1>>), "stem", <<"c", "v">>>>>>,
                       <<"ttStemsH", <<"cidx", Rounds(<<1>>), "stem", <<"c", "h">>>>>>>>))
  \o Of(<<1255>>, Rec(All(<<"ttZonesT", "ttZonesB">>, Cnt(Zone))))
  \o Of(<<1273>>, <<"zonedeltas">>)
  \o Of(<<1536>>, PSInfo) \o Of(<<1505>>, Tup(<<U32L, Arr(4, F64L)>>))
  \o Of(<<1410>>, Rec(<<<<"l", U32L>>, <<"r", U32L>>, <<"values", ArrC("masters", S16L)>>>>))
AttachmentRecords ==
     Of(<<2008>>, <<"links">>) \o Of(<<2007>>, <<"background">>) \o Of(<<2013>>, Cnt(<<"gbitmap">>))
  \o Of(<<2023>>, <<"end", N>>) \o Of(<<2019>>, Cnt(Tup(<<N, N, N>>)))
  \o Of(<<2010>>, <<"flags", U32L, <<<<"hint_replacement", 29>>, <<"horizontal_3_stem", 30>>, <<"vertical_3_stem", 31>>>>>>)
  \o Of(<<2009>>, <<"mask">>) \o Of(<<2011>>, Tup(<<S16L, S16L>>)) \o Of(<<2028>>, ArrC("m1", Tup(<<N, N>>)))
  \o Of(<<2027>>, Rec(<<<<"x", S16L>>, <<"y", S16L>>>>)) \o Of(<<1250>>, <<"end", U16L>>) \o Of(<<1253>>, <<"end", U32L>>)
  \o Of(<<2034, 2015, 2017>>, Str) \o Of(<<2012>>, U16L) \o Of(<<2018>>, <<"gdef">>)
  \o Of(<<2020>>, Cnt(Rec(<<<<"hue", N>>, <<"data", N>>>>))) \o Of(<<2029>>, <<"anchors">>)
  \o Of(<<2031>>, <<"guideprops">>)

Layouts(tab) == [id \in {tab[k][1] : k \in 1..Len(tab)} |-> tab[CHOOSE k \in 1..Len(tab) : tab[k][1] = id][2]]
LayoutOf == Layouts(FontRecords \o AttachmentRecords)

\* records of unknown types are kept as they are
Layout(id) == IF id \in DOMAIN LayoutOf THEN LayoutOf[id] ELSE <<"hex">>
\* Decode a whole record: Bad unless every byte is used.
Decode(id, b, c) ==
    LET r == Dec0(Layout(id), b, 1, c @@ ("m1" :> c.masters - 1)) IN IF r[2] # Len(b) + 1 THEN Bad ELSE r[1]
Encode(id, v, c) == Enc0(Layout(id), v, c @@ ("m1" :> c.masters - 1))
=============================================================================
