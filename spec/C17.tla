-------------------------------- MODULE C17 --------------------------------
EXTENDS JudgeBase, Info
Verdict(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE IF Len(e.ufos) # Masters(e.font) THEN "the number of masters differs"
    ELSE FirstBad([m \in DOMAIN e.ufos |-> InfoVerdict(e.font, e.ufos[m], m, e.minimal, e.pshints)])
JInit == JI
JNext == JN(Verdict)
=============================================================================
