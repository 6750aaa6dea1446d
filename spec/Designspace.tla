---------------------------- MODULE Designspace ----------------------------
(* The designspace of a font with several masters: its axes, the place of    *)
(* every master and of every instance.  User coordinates come in units,      *)
(* design coordinates and instance locations in thousandths, as in the file. *)
EXTENDS Convert

Axes(F) == Sel(F, "axis")
Tag(n) == CASE n = "Weight" -> "wght" [] n = "Width" -> "wdth" [] n = "Optical Size" -> "opsz" [] n = "Serif" -> "SERF"
            [] OTHER -> ""
\* ten pairs for each axis, of which the first n count
Maps(F, a) ==
    LET n == IF HasK(F, "mapcounts") /\ HasK(F, "maps") THEN LastOf(F, "mapcounts", <<>>)[a] ELSE 0
    IN SubSeq(LastOf(F, "maps", <<>>), 10 * (a - 1) + 1, 10 * (a - 1) + n)
\* a pair may have fractions: thousandths, and millionths that do not reach the designspace
User(p) == p[1] * 1000 + (IF Len(p) > 2 THEN p[3] ELSE 0)
MinUser(ms) == (CHOOSE i \in DOMAIN ms : \A j \in DOMAIN ms : User(ms[i]) <= User(ms[j]))
MaxUser(ms) == (CHOOSE i \in DOMAIN ms : \A j \in DOMAIN ms : User(ms[i]) >= User(ms[j]))
Nearest(p) == p[2] + (IF Len(p) > 2 /\ p[4] > 500 THEN 1 ELSE 0)
Instances(F) == LastOf(F, "instances", <<>>)
Labels(F) ==
    IF Len(Axes(F)) # 1 THEN <<>>
    ELSE [i \in DOMAIN Instances(F) |-> <<Instances(F)[i].name, Instances(F)[i].loc[1]>>]
Axis(F, a) ==
    LET ms == Maps(F, a)
    IN [name |-> Axes(F)[a], tag |-> Tag(Axes(F)[a]), map |-> [i \in DOMAIN ms |-> <<User(ms[i]), Nearest(ms[i]) * 1000>>],
        min |-> IF ms = <<>> THEN 0 ELSE User(ms[MinUser(ms)]),
        max |-> IF ms = <<>> THEN 1000000 ELSE User(ms[MaxUser(ms)]), labels |-> Labels(F)]
\* locations are recorded by master number, in any order
Place(F, m) == LET S == SelectSeq(Sel(F, "location"), LAMBDA l : l.index = m) IN S[Len(S)]
NameOf(F, m) == LET ns == Sel(F, "mastername") IN IF m <= Len(ns) THEN ns[m] ELSE "m" \o ToString(m - 1)
Located(F, loc) == {<<Axes(F)[a], loc[a]>> : a \in DOMAIN Axes(F)}

\* written: axes, sources and instances; a location is a set of <<axis, kind, value>>
SameAxis(e, o) == /\ o.name = e.name /\ o.map = e.map /\ o.min = e.min /\ o.max = e.max /\ o.def = e.min
                  /\ (IF e.tag = "" THEN o.tag # "" ELSE o.tag = e.tag)
                  /\ o.labels = e.labels
SourceLoc(F, m) == LET p == Place(F, m)
                   IN {<<Axes(F)[a], "x", p.loc[a] * 1000 + (IF "f" \in DOMAIN p THEN p.f[a] ELSE 0)>> : a \in DOMAIN Axes(F)}
InstanceLoc(F, i) == {<<l[1], "user", l[2]>> : l \in Located(F, Instances(F)[i].loc)}
DesignVerdict(F, ds, names) ==
    LET n == Masters(F)
    IN IF n = 1 THEN (IF ds = <<>> THEN "ok" ELSE "a font with one master gets a designspace")
       ELSE IF Len(ds) # 1 THEN "there is no designspace"
       ELSE LET d == ds[1] IN
            CASE Len(d.axes) # Len(Axes(F)) -> "the number of axes differs"
              [] \E a \in DOMAIN d.axes : ~SameAxis(Axis(F, a), d.axes[a]) -> "an axis differs"
              [] Len(d.sources) # n -> "the number of sources differs"
              [] \E m \in 1..n : d.sources[m].file # names[m] -> "a source refers to another UFO"
              [] \E m \in 1..n : Range(d.sources[m].loc) # SourceLoc(F, m) -> "a master is placed elsewhere"
              [] \E m \in 1..n : d.sources[m].name # NameOf(F, m) -> "the name of a master differs"
              [] Len(d.instances) # Len(Instances(F)) -> "the number of instances differs"
              [] \E i \in DOMAIN d.instances : d.instances[i].name # Instances(F)[i].name -> "the name of an instance differs"
              [] \E i \in DOMAIN d.instances : Range(d.instances[i].loc) # InstanceLoc(F, i) -> "an instance is placed elsewhere"
              [] OTHER -> "ok"
=============================================================================
