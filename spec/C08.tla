-------------------------------- MODULE C08 --------------------------------
(* A run of a real command in a prepared folder, compared with the final     *)
(* state that the model Outputs reaches for this configuration.              *)
EXTENDS JudgeBase
Exports == {"dump", "tth"}
Verdict(e) ==
    LET exp == e.exp
        paths == DOMAIN exp.fs
        changed == {p \in paths : e.obs[p] # exp.before[p]}
    IN CASE e.extra # <<>> -> "a file appears that was not announced"
         [] e.source # "old" -> "the source file is changed"
         [] exp.pc \in {"refused", "failed"} /\ changed # {} ->
               "a command that " \o (IF exp.pc = "failed" THEN "fails" ELSE "must refuse") \o " changes existing files"
         [] exp.pc = "refused" /\ e.ended = "done" -> "the refusal is not reported"
         [] exp.pc = "failed" /\ e.ended = "done" -> "the failure is not reported"
         \* exports without a force option may as well refuse
         [] exp.pc = "done" /\ e.ended # "done" /\ ~(exp.cfg.tool \in Exports /\ changed = {}) ->
               "the command does not finish"
         [] exp.pc = "done" /\ e.ended = "done" /\ \E p \in paths : exp.fs[p] = "old" /\ e.obs[p] # "old" ->
               "a file that was not announced is changed"
         [] exp.pc = "done" /\ e.ended = "done" /\ \E p \in paths : exp.fs[p] # e.obs[p] ->
               "an announced output is not (completely) replaced"
         [] OTHER -> "ok"
JInit == JI
JNext == JN(Verdict)
=============================================================================
