-------------------------------- MODULE C14 --------------------------------
EXTENDS JudgeBase, PSHints
Verdict(e) ==
    IF ~e.ok THEN "the conversion fails"
    ELSE LET st == Consumed(e.font)
         IN IF Len(e.ufos) # Masters(e.font) THEN "the number of masters differs"
            ELSE IF e.told # <<>> /\ e.told[1].ok # 1 THEN "the glyphs do not tell their hint sets"
            ELSE FirstBad([m \in DOMAIN e.ufos |->
                    IF e.told # <<>> /\ ToldVerdict(st, e.told[1], m) # "ok" THEN ToldVerdict(st, e.told[1], m)
                    ELSE IF {e.ufos[m].glyphs[i].name : i \in DOMAIN e.ufos[m].glyphs} # Range(e.ufos[m].order)
                       \/ Len(e.ufos[m].order) # Len(st.glyphs) THEN "glyphs are missing"
                    ELSE HintsVerdict(st, e.ufos[m], m, e.on)])
JInit == JI
JNext == JN(Verdict)
=============================================================================
