------------------------------ MODULE MC_Info ------------------------------
(* All arrangements of up to Depth font info records, read one after the     *)
(* other into the info: the result is what the records say, in any order.    *)
EXTENDS Info, Json
CONSTANTS Depth, Emit
VARIABLES F, info
R(k, v) == [k |-> k, v |-> v]
Records == {R("family_name", "Fam"), R("pref_family_name", "Pref"), R("pref_style_name", "Thin"), R("style_name", "W"),
            R("full_name", "Full"), R("underline_position", -75), R("underline_thickness", 51), R("font_style", 33),
            R("font_style", 64), R("is_fixed_pitch", 1), R("weight_code", 0), R("upm", 2048), R("note", "n"),
            R("stem_snap_h_num", 2), R("blue_values_num", 4), R("gasp", <<<<65535, 10>>>>), R("hhea_ascender", 900),
            R("tti", <<<<75, 513>>, <<86, <<44000, 82800>>>>>>), R("tti", <<<<63, 7>>, <<64, 264>>, <<92, -5>>>>)}
Set(i, pairs) == FoldLeft(LAMBDA a, p : [x \in DOMAIN a \cup {p[1]} |-> IF x = p[1] THEN p[2] ELSE a[x]], i, pairs)
Init == F = <<>> /\ info = [x \in {} |-> 0]
Next == /\ Len(F) < Depth
        /\ \E r \in Records :
              /\ ~HasK(F, r.k)
              /\ F' = Append(F, r)
              /\ info' = Set(info, Stored(<<r>>, FALSE))
              /\ Emit => PrintT(<<"FONT", ToJson(F')>>)
Spec == Init /\ [][Next]_<<F, info>>
\* the attributes of different records are different ones: none overwrites another
Same == /\ DOMAIN info = {p[1] : p \in Range(Stored(F, FALSE))}
        /\ \A p \in Range(Stored(F, FALSE)) : info[p[1]] = p[2]
\* the calendar goes on day by day
Calendar == \A n \in {Len(F) * 1461 + 365 * k : k \in 0..40} :
               LET a == Date(n)
                   b == Date(n + 1)
               IN b = <<a[1], a[2], a[3] + 1>> \/ (b[3] = 1 /\ a[3] >= 28 /\ (b[2] = a[2] + 1 \/ (b[2] = 1 /\ a[2] = 12 /\ b[1] = a[1] + 1)))
Known == Date(0) = <<1904, 1, 1>> /\ Date(24107) = <<1970, 1, 1>> /\ Date(44619) = <<2026, 2, 28>> /\ Date(44620) = <<2026, 3, 1>>
         /\ Date(35123) = <<2000, 2, 29>> /\ Created(24106, 82800) = "1970/01/01 00:00:00"
=============================================================================
