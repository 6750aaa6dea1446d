-------------------------------- MODULE C22 --------------------------------
(* One run of the conversion command: the outlines before and after, what     *)
(* else the font says before and after, and the files around it.             *)
EXTENDS JudgeBase, Quad
Outlines(nodes) == LET s == SourceContours(nodes) IN [m \in 1..MastersOf(nodes) |-> [i \in DOMAIN s |-> SourcePath(s[i], m)]]
Glyph(src, out, tol) ==
    IF src = <<>> THEN (IF out = <<>> THEN "ok" ELSE "an empty glyph gets an outline")
    ELSE IF out = <<>> \/ out[1].t # "move" THEN "the outline is lost"
    ELSE IF \E i \in DOMAIN out : Len(out[i].p) # MastersOf(src) THEN "the number of masters differs"
    ELSE IF \E i \in DOMAIN out : out[i].t = "curve" THEN "a cubic segment is left"
    ELSE LET a == Outlines(src)
             b == Outlines(out)
             M == MastersOf(src)
         IN IF Len(a[1]) # Len(b[1]) THEN "contours are added or dropped"
            ELSE LET bad == {<<m, i>> \in (1..M) \X (1..Len(a[1])) : PathQuad(a[m][i], b[m][i], tol) # "ok"}
                 IN IF bad = {} THEN "ok" ELSE LET x == CHOOSE x \in bad : TRUE IN PathQuad(a[x[1]][x[2]], b[x[1]][x[2]], tol)
Empty(gs) == \A i \in DOMAIN gs : gs[i] = <<>>
Saved(e) ==
    CASE ~e.read -> "the result cannot be read"
      [] Len(e.out) # Len(e.src) -> "glyphs are added or dropped"
      [] \E i \in DOMAIN e.src : Glyph(e.src[i], e.out[i], e.tol) # "ok" ->
            LET i == CHOOSE i \in DOMAIN e.src : Glyph(e.src[i], e.out[i], e.tol) # "ok" IN Glyph(e.src[i], e.out[i], e.tol)
      [] [i \in DOMAIN e.orec |-> e.orec[i][1]] # [i \in DOMAIN e.rec |-> e.rec[i][1]] -> "records are added, dropped or moved"
      [] e.orec # e.rec -> LET i == CHOOSE i \in DOMAIN e.rec : e.rec[i] # e.orec[i] IN "other data differs: " \o e.rec[i][1]
      [] ~e.again -> "saving the result again changes it"
      [] OTHER -> "ok"
Verdict(e) ==
    CASE ~e.same -> "the source file changes"
      [] e.stray # <<>> -> "other files are written"
      [] e.exists /\ ~e.force -> IF e.did = "refused" \/ Empty(e.src) THEN "ok" ELSE "an existing file is not respected"
      [] Empty(e.src) -> IF e.did = "nothing" THEN "ok" ELSE "a font without outlines is saved"
      \* a curve may have no approximation with few points: nothing is saved then
      [] ~e.approx /\ e.did \in {"refused", "saved"} -> IF e.did = "saved" THEN Saved(e) ELSE "ok"
      [] e.did # "saved" -> "the conversion fails"
      [] OTHER -> Saved(e)
JInit == JI
JNext == JN(Verdict)
=============================================================================
