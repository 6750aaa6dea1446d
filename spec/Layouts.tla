------------------------------ MODULE Layouts ------------------------------
(* Hands the layout table to the harness, which builds records from it.      *)
EXTENDS Records
VARIABLE done
LInit == done = FALSE
LNext == ~done /\ done' = TRUE
         /\ PrintT(<<"FONT", ToJson(FontRecords)>>) /\ PrintT(<<"ATT", ToJson(AttachmentRecords)>>)
=============================================================================
