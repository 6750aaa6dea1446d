-------------------------------- MODULE C16 --------------------------------
EXTENDS JudgeBase, TTHints
\* single values, and the values that stand for nothing stored
Limits == <<<<"stemsnaplimit", 68>>, <<"zoneppm", 48>>, <<"codeppm", 0>>, <<"dropoutppm", 255>>>>
LimitOk(F, k, std, o) ==
    IF HasK(F, k) THEN o = <<LastOf(F, k, 0)>> \/ (o = <<>> /\ LastOf(F, k, 0) = std) ELSE o = <<>>
Maxp == <<<<51, "maxZones">>, <<52, "maxTwilightPoints">>, <<53, "maxStorage">>, <<54, "maxFunctionDefs">>,
          <<55, "maxInstructionDefs">>, <<56, "maxStackElements">>>>
TTI(F, n) == LET S == SelectSeq(Cat(LAMBDA i : IF F[i].k = "tti" THEN F[i].v ELSE <<>>, Len(F)), LAMBDA x : x[1] = n)
             IN IF S = <<>> THEN <<>> ELSE <<S[Len(S)][2]>>
Stored(F, k) == IF HasK(F, k) THEN <<LastOf(F, k, <<>>)>> ELSE <<>>
SetOf(es) == Range(es)
Key(o, k) == IF k \in DOMAIN o THEN <<o[k]>> ELSE <<>>
Ufo(e, u) ==
    LET F == e.font
        s == StemsVerdict(F, u.stems)
        z == ZonesVerdict(F, u.zones)
    IN CASE s # "ok" -> s
         [] z # "ok" -> z
         [] \E i \in DOMAIN Limits : ~LimitOk(F, Limits[i][1], Limits[i][2], Key(u.limits, Limits[i][1])) -> "a limit differs"
         [] u.cvt # LastOf(F, "cvt", <<>>) -> "control values"
         [] u.prep # Stored(F, "prep") -> "control value program"
         [] u.fpgm # Stored(F, "fpgm") -> "font program"
         [] \E i \in DOMAIN Maxp : LET w == Key(u.maxp, Maxp[i][2])
                                   IN w # TTI(F, Maxp[i][1]) /\ ~(w = <<>> /\ TTI(F, Maxp[i][1]) = <<0>>) -> "maximum profile"
         [] OTHER -> "ok"
Same(a, b) == /\ {AsStem(x) : x \in Range(a.stems)} = {AsStem(x) : x \in Range(b.stems)}
              /\ {AsZone(x) : x \in Range(a.zones)} = {AsZone(x) : x \in Range(b.zones)}
Gasp(F) == LET g == LastOf(F, "gasp", <<>>) IN {<<ToString(g[i][1]), g[i][2]>> : i \in DOMAIN g}
Tth(e) ==
    LET F == e.font
        t == e.tth
        s == StemsVerdict(F, t.stems)
        z == ZonesVerdict(F, t.zones)
    IN CASE ~t.ok -> "the export of hints fails"
         [] s # "ok" -> "export: " \o s
         [] z # "ok" -> "export: " \o z
         [] \E i \in 1..3 : Key(t.limits, Limits[i][1]) # Stored(F, Limits[i][1]) -> "export: a limit differs"
         [] Range(t.gasp) # Gasp(F) -> "export: gasp"
         [] t.upm # TTI(F, 58) \/ t.lowest # TTI(F, 60) -> "export: font info"
         [] OTHER -> "ok"
\* the file that vfb2tth writes says what was extracted (its keys have no order)
Written(t, w) ==
    CASE ~w.ok -> "the export of hints is not written"
      [] ~Same(t, w) \/ Len(t.stems) # Len(w.stems) \/ Len(t.zones) # Len(w.zones)
         \/ t.limits # w.limits \/ Range(t.gasp) # Range(w.gasp) \/ t.upm # w.upm \/ t.lowest # w.lowest
         \/ Commands(t.glyphs) # Commands(w.glyphs) -> "the written export of hints differs"
      [] OTHER -> "ok"
Verdict(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE LET v == FirstBad([i \in DOMAIN e.json |-> Ufo(e, e.json[i])])
             w == FirstBad([i \in DOMAIN e.ufos |-> IF Same(e.ufos[i], e.json[1]) /\ e.ufos[i].limits = e.json[1].limits
                                                     THEN "ok" ELSE "JSON and UFO differ"])
         IN IF v # "ok" THEN v ELSE IF w # "ok" THEN w
            ELSE IF Tth(e) # "ok" THEN Tth(e) ELSE FirstBad([i \in DOMAIN e.file |-> Written(e.tth, e.file[i])])
JInit == JI
JNext == JN(Verdict)
=============================================================================
