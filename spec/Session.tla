------------------------------- MODULE Session -------------------------------
(* One process that opens fonts, converts them with several options and saves *)
(* them.  What a conversion gives is a function of the file and the options:  *)
(* it depends neither on what was converted before, nor on what was done with *)
(* the results, nor on the process; and a font that is converted stays what   *)
(* it is.                                                                     *)
(* The parts of a conversion are records [a |-> kind of part, k |-> key,      *)
(* d |-> digest of what was written]; a kind of part is what an option can    *)
(* name.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Forms == {"masters", "apart", "again", "plain", "normal", "json", "zip", "process"}
HintInfo == {"postscriptBlueValues", "postscriptOtherBlues", "postscriptFamilyBlues", "postscriptFamilyOtherBlues",
             "postscriptStemSnapH", "postscriptStemSnapV", "postscriptBlueFuzz", "postscriptBlueShift", "postscriptBlueScale",
             "postscriptForceBold"}
HintLib == {"com.adobe.type.autohint", "com.adobe.type.autohint.v2", "public.postscript.hints"}
\* what an option names
Named(o, p) ==
    CASE o = "minimal" -> \/ p.a \in {"guides", "background", "groups", "fea", "gnote", "kerning"}    \* glyphs that are missing
                          \/ p.a = "info" /\ p.k = "note"
                          \/ p.a = "glib" /\ p.k \in {"com.fontlab.v5.background", "com.fontlab.v5.bitmaps", "public.markColor"}
      [] o = "base64" -> p.a = "glib" /\ p.k = "com.fontlab.ttprogram"
      [] o = "pshints" -> \/ p.a = "info" /\ p.k \in HintInfo
                          \/ p.a = "glib" /\ p.k \in HintLib
                          \/ p.a = "points"     \* names of points
      [] o = "add_kerning_groups" -> p.a = "fea"
      [] o = "move_groups" -> p.a \in {"fea", "groups"}
Options == {"minimal", "base64", "pshints", "add_kerning_groups", "move_groups"}
\* the parts of p that are not the same in q
Changed(p, q) == LET P == {p[i] : i \in DOMAIN p} Q == {q[i] : i \in DOMAIN q} IN (P \ Q) \cup (Q \ P)
Unexplained(o1, p, o2, q) == {x \in Changed(p, q) : \A o \in Options : o1[o] # o2[o] => ~Named(o, x)}

\* --- histories -----------------------------------------------------------------
\* An event is [op, s (slot), f (file), o (options), form, parts, d (digest)].
\* st: which file each slot holds, and whether it was decoded: saving writes the
\* bytes that were read, or what the decoded records encode to.
Bytes(st, e) == <<st[e.s].f, IF st[e.s].dec THEN "encoded" ELSE "read">>
Step(st, e) == CASE e.op = "open" -> [st EXCEPT ![e.s] = [f |-> e.f, dec |-> FALSE, enc |-> FALSE]]
                 [] e.op \in {"convert", "say"} /\ e.form \notin {"process", "again"} -> [st EXCEPT ![e.s].dec = TRUE]
                 \* encoding leaves out empty parts, which are not there any more afterwards
                 [] e.op = "save" -> [st EXCEPT ![e.s].enc = st[e.s].dec]
                 [] OTHER -> st
\* two observations of one history
Conflict(e, f) ==
    CASE e.op # f.op \/ e.key # f.key -> "ok"
      [] e.op = "save" -> IF e.d # f.d THEN "a font that was converted is saved as something else" ELSE "ok"
      [] e.op = "say" -> IF e.d # f.d THEN "a font that was converted says something else" ELSE "ok"
      [] e.op = "convert" ->
            LET u == Unexplained(e.o, e.parts, f.o, f.parts) IN
            IF u = {} THEN "ok"
            ELSE LET x == CHOOSE x \in u : TRUE IN
                 (IF e.o = f.o THEN "converting again gives something else: " ELSE "an option changes what it does not name: ")
                 \o x.a \o " " \o x.k
      [] OTHER -> "ok"
RECURSIVE Keyed(_, _, _)
Keyed(st, es, i) ==
    IF i > Len(es) THEN <<>>
    ELSE LET e == es[i]
             key == CASE e.op = "save" -> Bytes(st, e)
                      [] e.op = "say" -> <<st[e.s].f, IF st[e.s].enc THEN "says again" ELSE "says">>
                      [] e.op = "convert" -> <<IF e.form = "process" THEN e.f ELSE st[e.s].f, "parts">>
                      [] OTHER -> <<0, "none">>
         IN <<e @@ [key |-> key]>> \o Keyed(Step(st, e), es, i + 1)
Empty == [s \in 1..3 |-> [f |-> 0, dec |-> FALSE, enc |-> FALSE]]
HistoryVerdict(es) ==
    LET k == Keyed(Empty, es, 1)
        bad == {p \in (DOMAIN k) \X (DOMAIN k) : p[1] < p[2] /\ Conflict(k[p[1]], k[p[2]]) # "ok"}
    IN IF bad = {} THEN "ok" ELSE LET p == CHOOSE p \in bad : \A q \in bad : p[2] <= q[2] IN Conflict(k[p[1]], k[p[2]])
=============================================================================
