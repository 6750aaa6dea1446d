-------------------------------- MODULE C06 --------------------------------
(* A history of operations on an open font, replayed on the real code; after *)
(* every step the state of all records was observed.  Lifecycle.tla is the   *)
(* design; here the same machine runs over real bytes and values: a record   *)
(* is [k |-> "raw", b |-> bytes] or [k |-> "dec", v |-> value].              *)
EXTENDS Glyph, VfbFile, JudgeBase
\* a value that cannot be encoded is known only by its recorded form
IsBad(v) == Len(v) = 2 /\ v[1] = "bad"
\* bytes that cannot be decoded have the value Bad
NeedsLinks == {2001, 2008}
Norm(id, v) == IF IsGlyph(id) THEN Meaning(v) ELSE v
Value(e, st) == IF st.k = "raw" THEN DecodeAny(e.id, st.b, e.ctx) ELSE st.v
SameVal(v, r) == IF IsBad(v) THEN r = v[2] ELSE Same(v, r)
\* the observation ob says that the record is still what it was in state st
Keeps(e, st, ob) ==
    IF ob.rep = "raw"
    THEN IF st.k = "raw" THEN ob.b = st.b
         ELSE ~IsBad(st.v) /\ LET t == DecodeAny(e.id, ob.b, e.ctx) IN
              t # Bad /\ Norm(e.id, t) = Norm(e.id, st.v)
    ELSE ob.rep = "dec" /\ SameVal(Value(e, st), ob.v)
ToState(e, st, ob) ==
    IF ob.rep = "raw" THEN [k |-> "raw", b |-> ob.b] ELSE [k |-> "dec", v |-> Value(e, st)]

Verdict(e) ==
    LET n == Len(e.ents)
        E(i) == [id |-> e.ents[i].id, ctx |-> e.ctx]
        broken == [i \in 1..n |-> DecodeAny(E(i).id, e.ents[i].data, e.ctx) = Bad]
        \* a: [st, ob, file, err, bad]
        step(a, s) ==
          LET ob == [i \in 1..n |-> IF s.obs[i].rep = "same" THEN a.ob[i] ELSE s.obs[i]]
              edited(i) == s.op = "edit" /\ s.i = i
              base == [i \in 1..n |->
                  IF edited(i)
                  THEN [k |-> "dec", v |-> IF s.v = 9 THEN <<"bad", e.ents[i].bad>>
                                            ELSE DecodeAny(E(i).id, e.ents[i].edits[s.v], e.ctx)]
                  ELSE IF s.op = "reread" THEN [k |-> "raw", b |-> a.file[i]]
                  ELSE a.st[i]]
              dmg(i) == broken[i] /\ base[i].k = "raw" /\ base[i].b = e.ents[i].data
              refuse == CASE s.op = "dec" -> dmg(s.i)
                          [] s.op = "decall" -> \E i \in 1..n : dmg(i)
                          [] s.op = "lookup" -> \E i \in 1..n : dmg(i) /\ E(i).id \in NeedsLinks
                          [] OTHER -> FALSE
              stuck == {i \in 1..n : base[i].k = "dec" /\ IsBad(base[i].v)}
              all(r) == \A i \in 1..n : ob[i].rep = r
              \* records other than the one worked on are left as they are
              others == \A i \in 1..n : i = s.i \/ ob[i] = a.ob[i]
              none == \A i \in 1..n : ob[i] = a.ob[i]
              lost == {i \in 1..n : ~Keeps(E(i), base[i], ob[i])}
              saved == s.op \in {"save", "savefile"}
              why ==
                CASE Len(s.obs) # n -> "records appear or disappear"
                  [] lost # {} -> "the record no longer has its latest value"
                  [] refuse /\ s.ok # 0 -> "damaged bytes are accepted"
                  [] refuse /\ s.err # 1 -> "damaged bytes are not flagged"
                  [] ~refuse /\ (~a.err \/ s.op \in {"decall", "reread"}) /\ s.err # 0 ->
                        "errors are flagged without an error"
                  [] refuse /\ s.op = "dec" /\ ~none -> "a refused decoding changes records"
                  [] refuse -> "ok"
                  [] s.op \in {"dec", "decall", "json", "other", "lookup", "reread", "edit"} /\ s.ok # 1 ->
                        "the operation fails"
                  [] s.op = "dec" /\ ~(others /\ ob[s.i].rep = "dec") -> "decoding one record"
                  [] s.op = "edit" /\ ~(others /\ ob[s.i].rep = "dec") -> "editing one record"
                  [] s.op = "enc" /\ ~others -> "encoding one record changes others"
                  [] s.op = "enc" /\ s.i \notin stuck /\ (s.ok # 1 \/ ob[s.i].rep # "raw") -> "encoding one record fails"
                  [] s.op = "enc" /\ s.i \in stuck /\ (s.ok # 0 \/ ob[s.i].rep # "dec") ->
                        "a failed encoding must be reported and keep the value"
                  [] s.op = "decall" /\ ~all("dec") -> "decoding all records"
                  [] s.op = "encall" /\ stuck = {} /\ ~(s.ok = 1 /\ all("raw")) -> "encoding all records"
                  [] (saved \/ s.op = "encall") /\ stuck # {} /\ s.ok # 0 -> "a failed encoding is not reported"
                  [] s.op \in {"json", "other"} /\ ~none -> "looking changes a record"
                  [] s.op = "lookup" /\ \E i \in 1..n : IsGlyph(E(i).id) /\ ob[i].rep # "dec" ->
                        "a glyph is not available after looking it up"
                  [] s.op = "reread" /\ ~all("raw") -> "reading"
                  [] saved /\ stuck = {} /\ ~(s.ok = 1 /\ all("raw")) -> "saving fails"
                  [] saved /\ stuck = {} /\
                     s.file # FileBytes(e.minor, [i \in 1..n |-> [id |-> E(i).id, data |-> ob[i].b]]) ->
                        "the saved file is not the records in order with their lengths"
                  [] OTHER -> "ok"
          IN IF a.bad # "" THEN a
             ELSE IF why # "ok" THEN [a EXCEPT !.bad = s.op \o ": " \o why]
             ELSE [st |-> [i \in 1..n |-> ToState(E(i), base[i], ob[i])], ob |-> ob,
                   file |-> IF saved /\ stuck = {} THEN [i \in 1..n |-> ob[i].b] ELSE a.file,
                   err |-> refuse \/ (s.op \notin {"decall", "reread"} /\ a.err), bad |-> ""]
        first == [i \in 1..n |-> [rep |-> "raw", b |-> e.ents[i].data]]
        f == FoldLeft(step, [st |-> [i \in 1..n |-> [k |-> "raw", b |-> e.ents[i].data]], ob |-> first,
                             file |-> <<>>, err |-> FALSE, bad |-> ""], e.steps)
    IN IF f.bad = "" THEN "ok" ELSE f.bad
JInit == JI
JNext == JN(Verdict)
=============================================================================
