-------------------------------- MODULE C19 --------------------------------
EXTENDS JudgeBase, Features
Verdict(e) ==
    LET st == Consumed(e.font)
        raw == Sel(st.font, "features")
        code == IF raw = <<>> THEN <<>> ELSE Read(e.codes)
    IN CASE ~e.ok -> "the conversion fails"
         [] TrimEnd(e.lines) # code -> "the text that is read differs"
         [] Read(e.back) # code -> "the text that is written back differs"
         [] Len(e.ufos) # Masters(e.font) -> "the number of masters differs"
         [] OTHER -> FirstBad(<<SplitVerdict(e.lines, e.split)>> \o
                        [m \in DOMAIN e.ufos |->
                           FeaVerdict(FeaClasses(st, e.ufos[m].order, e.opts), code, e.ufos[m].fea)])
JInit == JI
JNext == JN(Verdict)
=============================================================================
