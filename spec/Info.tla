-------------------------------- MODULE Info --------------------------------
(* Font info: what the font-level records become in the fontinfo of one      *)
(* master.  The result does not depend on the order of the records.          *)
EXTENDS Convert

\* --- records that become one attribute each, the value as it is ------------
Plainly == <<
   <<"full_name", "postscriptFullName">>, <<"font_name", "postscriptFontName">>,
   <<"family_name", "styleMapFamilyName">>, <<"style_name", "postscriptWeightName">>,
   <<"pref_family_name", "familyName">>, <<"pref_family_name", "openTypeNamePreferredFamilyName">>,
   <<"pref_style_name", "styleName">>, <<"pref_style_name", "openTypeNamePreferredSubfamilyName">>,
   <<"apple_name", "macintoshFONDName">>, <<"fond_id", "macintoshFONDFamilyID">>,
   <<"copyright", "copyright">>, <<"trademark", "trademark">>, <<"notice", "openTypeNameDescription">>,
   <<"source", "openTypeNameManufacturer">>, <<"designer", "openTypeNameDesigner">>,
   <<"designer_url", "openTypeNameDesignerURL">>, <<"vendor_url", "openTypeNameManufacturerURL">>,
   <<"License", "openTypeNameLicense">>, <<"LicenseURL", "openTypeNameLicenseURL">>,
   <<"SampleText", "openTypeNameSampleText">>, <<"tt_u_id", "openTypeNameUniqueID">>,
   <<"tt_version", "openTypeNameVersion">>, <<"default_character", "postscriptDefaultCharacter">>,
   <<"vendor", "openTypeOS2VendorID">>, <<"panose", "openTypeOS2Panose">>, <<"unique_id", "postscriptUniqueID">>,
   <<"version_major", "versionMajor">>, <<"version_minor", "versionMinor">>, <<"year", "year">>,
   <<"upm", "unitsPerEm">>, <<"underline_thickness", "postscriptUnderlineThickness">>,
   <<"hhea_ascender", "openTypeHheaAscender">>, <<"hhea_descender", "openTypeHheaDescender">>,
   <<"hhea_line_gap", "openTypeHheaLineGap">>, <<"italic_angle", "italicAngle">>,
   <<"unicoderanges", "openTypeOS2UnicodeRanges">> >>
\* entries of the TrueType info record, by their number
TTInts == <<
   <<63, "openTypeOS2WidthClass">>, <<60, "openTypeHeadLowestRecPPEM">>,
   <<65, "openTypeOS2SubscriptXSize">>, <<66, "openTypeOS2SubscriptYSize">>,
   <<67, "openTypeOS2SubscriptXOffset">>, <<68, "openTypeOS2SubscriptYOffset">>,
   <<69, "openTypeOS2SuperscriptXSize">>, <<70, "openTypeOS2SuperscriptYSize">>,
   <<71, "openTypeOS2SuperscriptXOffset">>, <<72, "openTypeOS2SuperscriptYOffset">>,
   <<73, "openTypeOS2StrikeoutSize">>, <<74, "openTypeOS2StrikeoutPosition">>,
   <<77, "openTypeOS2TypoAscender">>, <<78, "openTypeOS2TypoDescender">>, <<79, "openTypeOS2TypoLineGap">>,
   <<81, "openTypeOS2WinAscent">>, <<82, "openTypeOS2WinDescent">> >>

\* --- values of their own --------------------------------------------------
Bits(v) == SelectSeq([i \in 1..31 |-> i - 1], LAMBDA b : Bit(v, 2^b) = 1)
\* a regular style that is italic is just italic
Style(v) == LET it == IF Bit(v, 1) = 1 THEN "italic" ELSE ""
                w == IF Bit(v, 64) = 1 THEN (IF it = "" THEN "regular" ELSE "") ELSE IF Bit(v, 32) = 1 THEN "bold" ELSE ""
            IN IF w # "" /\ it # "" THEN w \o " " \o it ELSE w \o it
\* days since 1904-01-01 as a date of the Gregorian calendar
Date(days) ==
    LET d == days + 695361
        era == d \div 146097
        doe == d % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        day == doy - (153 * mp + 2) \div 5 + 1
        mon == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN <<yoe + era * 400 + (IF mon <= 2 THEN 1 ELSE 0), mon, day>>
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
\* time is counted from 1903-12-31 23:00 UTC (midnight in central Europe); the earliest date
\* is the start of 1970, 24107 days after the start of 1904
Created(ds, sc) ==
    LET days == ds + (sc + 3600) \div 86400
        d == Date(days)
        s == IF days < 24107 THEN 0 ELSE (sc + 3600) % 86400
        e == IF days < 24107 THEN <<1970, 1, 1>> ELSE d
    IN ToString(e[1]) \o "/" \o Two(e[2]) \o "/" \o Two(e[3]) \o " "
       \o Two(s \div 3600) \o ":" \o Two((s \div 60) % 60) \o ":" \o Two(s % 60)
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v

\* --- what is stored: <<attribute, value>> ---------------------------------
One(k, F, a, v) == IF HasK(F, k) THEN <<<<a, v>>>> ELSE <<>>
TTI(F) == LastOf(F, "tti", <<>>)
TT(F, n) == LET S == SelectSeq(TTI(F), LAMBDA x : x[1] = n) IN IF S = <<>> THEN <<>> ELSE <<S[1][2]>>
TTOne(F, n, a, f(_)) == LET v == TT(F, n) IN IF v = <<>> THEN <<>> ELSE <<<<a, f(v[1])>>>>
Stored(F, minimal) ==
    Cat(LAMBDA i : One(Plainly[i][1], F, Plainly[i][2], LastOf(F, Plainly[i][1], 0)), Len(Plainly))
    \o (IF minimal THEN <<>> ELSE One("note", F, "note", LastOf(F, "note", 0)))
    \o One("is_fixed_pitch", F, "postscriptIsFixedPitch", LastOf(F, "is_fixed_pitch", 0) # 0)
    \o One("weight_code", F, "openTypeOS2WeightClass", Clamp(LastOf(F, "weight_code", 0), 1, 1000))
    \o (IF ~HasK(F, "font_style") THEN <<>>
        ELSE LET v == LastOf(F, "font_style", 0)
             IN <<<<"openTypeOS2Selection", SelectSeq(Bits(v), LAMBDA b : b \notin {0, 5, 6})>>>>
                \o (IF Style(v) = "" THEN <<>> ELSE <<<<"styleMapStyleName", Style(v)>>>>))
    \o One("gasp", F, "openTypeGaspRangeRecords",
           LET g == LastOf(F, "gasp", <<>>)
           IN [i \in DOMAIN g |-> [rangeMaxPPEM |-> g[i][1], rangeGaspBehavior |-> Bits(g[i][2])]])
    \o One("fontnames", F, "openTypeNameRecords",
           LET n == LastOf(F, "fontnames", <<>>)
           IN [i \in DOMAIN n |-> [nameID |-> n[i][1], platformID |-> n[i][2], encodingID |-> n[i][3],
                                   languageID |-> n[i][4], string |-> n[i][5]]])
    \o Cat(LAMBDA i : TTOne(F, TTInts[i][1], TTInts[i][2], LAMBDA v : v), Len(TTInts))
    \o TTOne(F, 64, "openTypeOS2Type", Bits)
    \o TTOne(F, 75, "openTypeOS2FamilyClass", LAMBDA v : <<v \div 256, v % 256>>)
    \o TTOne(F, 57, "openTypeHeadFlags", LAMBDA v : v.flags)
    \o TTOne(F, 84, "openTypeOS2CodePageRanges", LAMBDA v : v[1] \o [i \in DOMAIN v[2] |-> v[2][i] + 32])
    \o TTOne(F, 86, "openTypeHeadCreated", LAMBDA v : Created(v[1], v[2]))
    \o (IF TT(F, 92) \in {<<>>, <<0>>} THEN <<>>
        ELSE TTOne(F, 92, "postscriptNominalWidthX", LAMBDA v : IF v < 0 THEN -v ELSE v))

\* --- what differs per master, with PostScript data or without --------------
Clip(F, ps, k, a) ==
    LET n == LastOf(F, k \o "_num", 0)
        v == IF k \in DOMAIN ps THEN ps[k] ELSE <<>>
        full == v \o [i \in 1..14 |-> 0]
    IN IF n = 0 THEN <<>> ELSE <<<<a, SubSeq(full, 1, n)>>>>
At(ps, k, d) == IF k \in DOMAIN ps THEN ps[k] ELSE d
PerMaster(F, m, pshints) ==
    LET ps == Sel(F, "psinfo")[m]
    IN << <<"ascender", At(ps, "ascender", 0)>>, <<"descender", At(ps, "descender", 0)>>,
          <<"xHeight", At(ps, "x_height", 0)>>, <<"capHeight", At(ps, "cap_height", 0)>> >>
       \o (IF ~pshints THEN <<>>
           ELSE << <<"postscriptBlueScale", At(ps, "blue_scale", 39625)>>, <<"postscriptBlueShift", At(ps, "blue_shift", 0)>>,
                   <<"postscriptBlueFuzz", At(ps, "blue_fuzz", 0)>>, <<"postscriptForceBold", At(ps, "force_bold", 0) # 0>> >>
                \o Clip(F, ps, "blue_values", "postscriptBlueValues") \o Clip(F, ps, "other_blues", "postscriptOtherBlues")
                \o Clip(F, ps, "family_blues", "postscriptFamilyBlues")
                \o Clip(F, ps, "family_other_blues", "postscriptFamilyOtherBlues")
                \o Clip(F, ps, "stem_snap_h", "postscriptStemSnapH") \o Clip(F, ps, "stem_snap_v", "postscriptStemSnapV"))

\* --- the fixed defaults of attributes that nothing is stored for -----------
ZeroInts == ({TTInts[i][2] : i \in DOMAIN TTInts} \ {"openTypeOS2WidthClass"})
            \cup {"italicAngle", "openTypeHheaLineGap", "postscriptUnderlinePosition", "postscriptUnderlineThickness"}
EmptyTexts == {"openTypeNameDescription", "openTypeNamePreferredFamilyName", "openTypeNamePreferredSubfamilyName",
               "openTypeNameSampleText"}
EmptyLists == {"openTypeGaspRangeRecords", "openTypeHeadFlags", "openTypeOS2Selection", "openTypeOS2Type",
               "openTypeOS2UnicodeRanges", "openTypeOS2CodePageRanges", "postscriptBlueValues", "postscriptOtherBlues",
               "postscriptFamilyBlues", "postscriptFamilyOtherBlues", "guidelines"}
IsDefault(a, v) ==
    CASE a \in ZeroInts -> v = 0
      [] a \in EmptyTexts -> v = ""
      [] a \in EmptyLists -> v = <<>>
      [] a \in {"familyName", "styleMapFamilyName"} -> v = "Untitled"
      [] a = "openTypeOS2FamilyClass" -> v = <<0, 0>>
      [] a = "openTypeOS2WeightClass" -> v = 400
      [] a = "openTypeOS2WidthClass" -> v = 5
      [] a = "postscriptFontName" -> v = "Untitled-Regular"
      [] a = "postscriptFullName" -> v = "Untitled Regular"
      [] a \in {"postscriptForceBold", "postscriptIsFixedPitch"} -> v = FALSE
      [] a \in {"postscriptWeightName", "styleName"} -> v = "Regular"
      [] a = "styleMapStyleName" -> v = "regular"
      [] OTHER -> FALSE

\* the underline is stored by its middle and written by its top
UnderlineOk(F, v) ==
    LET d == 2 * (v - LastOf(F, "underline_position", 0)) - LastOf(F, "underline_thickness", 0) IN d \in {-1, 0, 1}
IsEmpty(v) == ToString(v) \in {ToString(""), ToString(<<>>)}
\* info: attribute -> value; reals are scaled (italicAngle by 100, BlueScale by 10^6)
InfoVerdict(F, info, m, minimal, pshints) ==
    LET exp == Stored(F, minimal) \o PerMaster(F, m, pshints)
        names == {exp[i][1] : i \in DOMAIN exp}
        bad == {i \in DOMAIN exp : IF exp[i][1] \in DOMAIN info THEN info[exp[i][1]] # exp[i][2] ELSE ~IsEmpty(exp[i][2])}
        rest == DOMAIN info \ (names \cup {"postscriptUnderlinePosition"})
        new == {a \in rest : ~IsDefault(a, info[a])}
    IN CASE bad # {} -> exp[CHOOSE i \in bad : \A j \in bad : i <= j][1] \o " differs"
         [] new # {} -> (CHOOSE a \in new : TRUE) \o " is not in the font"
         [] "postscriptUnderlinePosition" \in DOMAIN info /\ ~UnderlineOk(F, info["postscriptUnderlinePosition"]) ->
              "postscriptUnderlinePosition differs"
         [] "postscriptUnderlinePosition" \notin DOMAIN info /\ HasK(F, "underline_position") ->
              "postscriptUnderlinePosition is missing"
         [] OTHER -> "ok"
=============================================================================
