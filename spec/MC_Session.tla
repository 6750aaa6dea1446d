----------------------------- MODULE MC_Session -----------------------------
(* The design: fonts, builders and results are objects which refer to parts   *)
(* in memory.  A builder takes over what the font says, and results are       *)
(* handed out to be changed at will.  Where they refer to the same parts      *)
(* ("shared"), changing one changes the others; TLC shows that copying is     *)
(* enough, and that each kind of sharing is not.                              *)
EXTENDS Session, Json
CONSTANTS Depth, Emit, Shared      \* Shared \subseteq {"font-builder", "builder-result", "masters"}
VARIABLES st, cell, builder, result, hist, n, seen
\* result: the cells of the masters; seen: what was written of the last masters that were handed out one by one
\* cell: contents of memory; "f1" etc. is what file 1 says
Content(f) == <<"says", f>>
Init == /\ st = [s \in 1..2 |-> [f |-> s, dec |-> FALSE]]
        /\ cell = [c \in {1, 2} |-> Content(c)]     \* the fonts' own cells
        /\ builder = [s |-> 0, o |-> 0, c |-> 0] /\ result = <<>> /\ hist = <<>> /\ n = 0 /\ seen = <<>>
Fresh == Cardinality(DOMAIN cell) + 1
Do(e) == /\ n < Depth /\ n' = n + 1 /\ hist' = Append(hist, e)
         /\ Emit /\ n' = Depth => PrintT(<<"HISTORY", ToJson(hist')>>)
\* the cells of two masters made from builder cell b
Masters(c, b) ==
    IF "builder-result" \in Shared THEN [cell |-> c, result |-> <<b, b>>]
    ELSE LET k == Cardinality(DOMAIN c) + 1 IN
         IF "masters" \in Shared THEN [cell |-> c @@ (k :> c[b]), result |-> <<k, k>>]
         ELSE [cell |-> c @@ (k :> c[b]) @@ (k + 1 :> c[b]), result |-> <<k, k + 1>>]
\* convert with a new builder: the builder's cell is a copy of the font's, the masters' are copies of the builder's
Convert(s, o, form) ==
    /\ Do([op |-> "convert", s |-> s, o |-> o, form |-> form])
    /\ LET share == "font-builder" \in Shared
           b == IF share THEN s ELSE Fresh
           c1 == IF share THEN cell ELSE cell @@ (Fresh :> cell[s])
           r == Masters(c1, b)
       IN /\ builder' = [s |-> s, o |-> o, c |-> b] /\ result' = r.result
          /\ IF form = "apart"    \* the first master is changed before the second one is written
             THEN /\ cell' = [r.cell EXCEPT ![r.result[1]] = <<"spoilt">>]
                  /\ seen' = <<r.cell[r.result[1]], cell'[r.result[2]]>>
             ELSE cell' = r.cell /\ seen' = <<r.cell[r.result[1]], r.cell[r.result[2]]>>
    /\ st' = [st EXCEPT ![s].dec = TRUE]
Again == /\ builder.s # 0 /\ Do([op |-> "convert", s |-> builder.s, o |-> builder.o, form |-> "again"])
         /\ LET r == Masters(cell, builder.c) IN
            cell' = r.cell /\ result' = r.result /\ seen' = <<r.cell[r.result[1]], r.cell[r.result[2]]>>
         /\ UNCHANGED <<st, builder>>
Spoil == /\ result # <<>> /\ Do([op |-> "spoil", s |-> 1, o |-> 0, form |-> ""])
         /\ cell' = [c \in DOMAIN cell |-> IF c \in {result[1], result[2]} THEN <<"spoilt">> ELSE cell[c]]
         /\ UNCHANGED <<st, builder, result, seen>>
Save(s) == Do([op |-> "save", s |-> s, o |-> 0, form |-> ""]) /\ UNCHANGED <<st, cell, builder, result, seen>>
Say(s) == Do([op |-> "say", s |-> s, o |-> 0, form |-> ""]) /\ st' = [st EXCEPT ![s].dec = TRUE] /\ UNCHANGED <<cell, builder, result, seen>>
Reopen(s) == /\ Do([op |-> "open", s |-> s, o |-> 0, form |-> ""]) /\ st' = [st EXCEPT ![s].dec = FALSE]
             /\ cell' = [cell EXCEPT ![s] = Content(s)] /\ UNCHANGED <<builder, result, seen>>
Next == \/ \E s \in 1..2 : (\E o \in 1..2, f \in {"masters", "apart", "write"} : Convert(s, o, f)) \/ Save(s) \/ Say(s)
        \/ Reopen(1) \/ Again \/ Spoil
Spec == Init /\ [][Next]_<<st, cell, builder, result, hist, n, seen>>
FontsStay == \A s \in 1..2 : cell[s] = Content(s)
MastersStay == seen # <<>> => \A i \in 1..2 : seen[i] = Content(builder.s)
BuilderStays == builder.s # 0 => cell[builder.c] = Content(builder.s)
=============================================================================
