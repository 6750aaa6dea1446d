-------------------------------- MODULE C18 --------------------------------
EXTENDS Session, JudgeBase
Verdict(e) == HistoryVerdict(e.h)
JInit == JI
JNext == JN(Verdict)
=============================================================================
