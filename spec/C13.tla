-------------------------------- MODULE C13 --------------------------------
EXTENDS JudgeBase, Kerning
Verdict(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE LET st == Consumed(e.font)
         IN IF Len(e.ufos) # Masters(e.font) THEN "the number of masters differs"
            ELSE FirstBad([k \in 1..2 * Len(e.ufos) |->
                    LET m == (k + 1) \div 2
                        w == GroupsVerdict(st, e.ufos[m], e.opts)
                    IN IF k % 2 = 1 THEN (IF w = "ok" THEN GroupLibVerdict(st, e.ufos[m]) ELSE w) ELSE KerningVerdict(st, e.ufos[m], m, e.opts)])
JInit == JI
JNext == JN(Verdict)
=============================================================================
