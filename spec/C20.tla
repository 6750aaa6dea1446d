-------------------------------- MODULE C20 --------------------------------
(* Guides of the font and of its glyphs; guide records encoded again.        *)
EXTENDS JudgeBase, Convert
Convertion(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE LET st == Consumed(e.font)
         IN IF Len(e.ufos) # Masters(e.font) THEN "the number of masters differs"
            ELSE FirstBad([m \in DOMAIN e.ufos |-> GuidesVerdict(st, e.ufos[m], m, e.minimal, e.atan)])
\* a record of guides decoded by the code, and what it encodes to
Recoded(e) ==
    CASE e.positions # [i \in 1..2 |-> [j \in DOMAIN e.g[<<"h", "v">>[i]] |->
                         [m \in DOMAIN e.g[<<"h", "v">>[i]][j] |-> e.g[<<"h", "v">>[i]][j][m][1]]]] -> "decoded positions differ"
      [] \E i \in 1..2 : \E j \in DOMAIN e.angles[i] : \E m \in DOMAIN e.angles[i][j] :
            LET x == e.angles[i][j][m] - Deg(e.atan, e.g[<<"h", "v">>[i]][j][m][2]) IN x > 1 \/ x < -1 ->
            "decoded angles differ"
      [] e.before # e.after -> "guides change when they are encoded again"
      [] OTHER -> "ok"
Verdict(e) == IF e.kind = "convert" THEN Convertion(e) ELSE Recoded(e)
JInit == JI
JNext == JN(Verdict)
=============================================================================
