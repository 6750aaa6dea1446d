-------------------------------- MODULE C21 --------------------------------
EXTENDS Dump, JudgeBase
Verdict(e) ==
    CASE e.kept # 1 -> "an input file was changed"
      [] e.k = "dump" -> DumpVerdict(e.a, e.ctx, e.opts, e.again, e.out)
      [] e.k = "unicode" -> UnicodeVerdict(e.text, e.out)
      [] e.k = "diff" -> DiffVerdict(e.a, e.b, e.ctx, e.out)
JInit == JI
JNext == JN(Verdict)
=============================================================================
