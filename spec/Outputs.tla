------------------------------ MODULE Outputs ------------------------------
(* What a conversion or save command does to the files at its output        *)
(* locations.  A command announces its outputs, refuses when one of them    *)
(* exists and force is off, prepares everything in memory (which may fail)  *)
(* and only then replaces the outputs one after the other.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Show
VARIABLES cfg, fs, pc, todo
vars == <<cfg, fs, pc, todo>>

\* the output folder: not given, another one, or the one of the source file
Dirs == {"no", "out", "same"}
\* the outputs of every command, for a source file font.vfb with n masters
Master(stem, n, ext) == IF n = 1 THEN <<stem \o ext>> ELSE <<stem \o ext, stem \o "-1" \o ext>>
Announced(c) ==
  CASE c.tool = "ufo"  -> Master("font", c.n, ".ufo")  \o (IF c.n > 1 THEN <<"font.designspace">> ELSE <<>>)
    [] c.tool = "ufoz" -> Master("font", c.n, ".ufoz") \o (IF c.n > 1 THEN <<"font.designspace">> ELSE <<>>)
    [] c.tool = "json" -> Master("font", c.n, ".json") \o (IF c.n > 1 THEN <<"font.designspace">> ELSE <<>>)
    [] c.tool = "cu2qu" -> IF c.dir # "no" THEN <<"font.vfb">> ELSE <<"font.qu.vfb">>
    [] c.tool = "dump" -> <<"font.vfb.json">>
    [] c.tool = "tth" -> <<"font.tth.json">>
    [] c.tool = "save" -> <<"font.vfb">>
\* only these know a force option; "save" always replaces, the exports always replace
HasForce(c) == c.tool \in {"ufo", "ufoz", "json", "cu2qu"}
Range(s) == {s[i] : i \in 1..Len(s)}
\* other things in the output folder
Bystanders == {"font.txt", "other.ufo", "font-2.ufo", "font", "font-1.vfb"}
Paths == UNION {Range(Announced([tool |-> t, n |-> n, dir |-> d])) :
                t \in {"ufo", "ufoz", "json", "cu2qu", "dump", "tth", "save"}, n \in {1, 2}, d \in Dirs} \cup Bystanders
Configs ==
  UNION {[tool : {t}, n : {1, 2}, dir : Dirs, force : BOOLEAN, fail : {FALSE},
          pre : SUBSET Range(Announced([tool |-> t, n |-> 2, dir |-> "no"]) ) \cup {Paths}] : t \in {"ufo", "ufoz", "json"}}
  \cup [tool : {"cu2qu"}, n : {1, 2}, dir : Dirs, force : BOOLEAN, fail : {FALSE}, pre : {{}, {"font.vfb"}, {"font.qu.vfb"}, Paths}]
  \cup [tool : {"dump", "tth"}, n : {1, 2}, dir : Dirs, force : {FALSE}, fail : {FALSE}, pre : {{}, Paths}]
  \cup [tool : {"save"}, n : {1, 2}, dir : Dirs, force : {FALSE}, fail : BOOLEAN, pre : {{}, {"font.vfb"}, Paths}]

\* without an output folder the source file itself is there
Old(c) == [p \in Paths |-> IF p \in c.pre \cup Bystanders \/ (p = "font.vfb" /\ c.dir # "out") THEN "old" ELSE "none"]
Init == /\ cfg \in Configs /\ fs = Old(cfg) /\ pc = "start" /\ todo = Announced(cfg)
Refuses == HasForce(cfg) /\ ~cfg.force /\ \E p \in Range(Announced(cfg)) : fs[p] # "none"
Check == /\ pc = "start" /\ pc' = (IF Refuses THEN "refused" ELSE "prepare") /\ UNCHANGED <<cfg, fs, todo>>
Prepare == /\ pc = "prepare" /\ pc' = (IF cfg.fail THEN "failed" ELSE "write") /\ UNCHANGED <<cfg, fs, todo>>
Write == /\ pc = "write" /\ todo # <<>>
         /\ fs' = [fs EXCEPT ![Head(todo)] = "new"] /\ todo' = Tail(todo) /\ UNCHANGED <<cfg, pc>>
Done == /\ pc = "write" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<cfg, fs, todo>>
Next == Check \/ Prepare \/ Write \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Final == pc \in {"refused", "failed", "done"}
BystandersKept == \A p \in Paths \ Range(Announced(cfg)) : fs[p] = Old(cfg)[p]
NoForceKeeps == HasForce(cfg) /\ ~cfg.force => \A p \in Paths : Old(cfg)[p] = "old" => fs[p] = "old"
FailedKeeps == pc \in {"refused", "failed"} => fs = Old(cfg)
DoneReplaces == pc = "done" => \A p \in Range(Announced(cfg)) : fs[p] = "new"
NotSilent == (pc = "done" /\ HasForce(cfg) /\ ~cfg.force) => \A p \in Range(Announced(cfg)) : Old(cfg)[p] = "none"
Ends == <>Final
\* what the harness replays: the configuration with the expected outcome
Emit == (Show /\ Final) => PrintT(<<"O", ToJson([cfg |-> cfg, fs |-> fs, pc |-> pc, before |-> Old(cfg)])>>)
=============================================================================
