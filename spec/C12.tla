-------------------------------- MODULE C12 --------------------------------
(* Every glyph of a converted font.                                          *)
EXTENDS JudgeBase, Convert
Verdict(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE LET st == Consumed(e.font)
         IN FirstBad([m \in DOMAIN e.ufos |->
                LET v == GlyphsVerdict(st, e.ufos[m], m, e.minimal)
                IN IF v = "ok" THEN LibVerdict(st, e.ufos[m]) ELSE v])
JInit == JI
JNext == JN(Verdict)
=============================================================================
