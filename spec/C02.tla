-------------------------------- MODULE C02 --------------------------------
(* Judging recorded reads and writes of whole files.                         *)
(*  file : raw bytes, dropped ids, entries read, bytes written afterwards    *)
(*  skel : a large file as its skeleton: for every entry the header bytes,   *)
(*         the number of data bytes and a digest of them                     *)
(*  mem  : entries built in memory, the bytes written, the entries re-read   *)
EXTENDS VfbFile, JudgeBase

Drop(e) == {e.drop[k] : k \in 1..Len(e.drop)}
FileOk(e) ==
    LET r == RunReader(e.raw, Drop(e))
        canon == FileBytes(r.minor, r.entries)
    IN  IF r.phase = "error"
        THEN IF e.err = 1 THEN "ok" ELSE "a damaged file was read without an error"
        ELSE IF e.err = 1 THEN "a well-formed file was rejected"
        ELSE IF e.entries # r.entries THEN "wrong entries read"
        ELSE IF e.masters # r.masters THEN "wrong number of masters"
        ELSE IF e.written # canon THEN "wrong bytes written"
        ELSE "ok"

MemOk(e) ==
    LET canon == FileBytes(e.minor, e.entries)
    IN  IF e.written # canon THEN "written file is not header plus framed entries"
        ELSE IF WellFormed(e.entries) /\ e.reread # e.entries THEN "re-reading gives other entries"
        ELSE IF e.sizes # [k \in 1..Len(e.entries) |-> Len(e.entries[k].data)] THEN "wrong entry size reported"
        ELSE "ok"

\* masters in force at entry k of a skeleton; the MasterCount entry carries its data
SkelOk(e) ==
    LET n == Len(e.raw)
        f == FoldLeft(LAMBDA acc, x :
               LET h == ReadHead(x.head, 1)
                   size == TrueSize(h[1], h[2], acc.masters)
               IN [masters |-> IF h[1] = IdMasterCount /\ Len(x.data) = 2 THEN U16n(x.data, 1) ELSE acc.masters,
                   out |-> IF h[1] \in Drop(e) THEN acc.out
                           ELSE Append(acc.out, [id |-> h[1], n |-> size, dig |-> x.dig]),
                   ok |-> acc.ok /\ h[3] = Len(x.head) + 1 /\ size = x.n],
               [masters |-> 0, out |-> <<>>, ok |-> TRUE], e.raw)
    IN  IF ~f.ok THEN "harness: skeleton does not parse"
        ELSE IF e.entries # f.out THEN "wrong entries read"
        ELSE IF Len(e.written) # Len(f.out) THEN "wrong number of entries written"
        ELSE IF \E k \in 1..Len(f.out) :
                  \/ e.written[k].head # EntryHeader(f.out[k].id, f.out[k].n)
                  \/ e.written[k].n # f.out[k].n \/ e.written[k].dig # f.out[k].dig
             THEN "entry written with wrong header or data"
        ELSE IF e.minorOk # 1 THEN "file header changed"
        ELSE IF e.drop = <<>> /\ e.same # 1
                /\ \A k \in 1..n : e.raw[k].head = EntryHeader(f.out[k].id, f.out[k].n)
             THEN "writing an unmodified file changed it"
        ELSE "ok"
Verdict(e) == CASE e.k = "file" -> FileOk(e) [] e.k = "mem" -> MemOk(e) [] e.k = "skel" -> SkelOk(e)
                [] OTHER -> "unknown event"
JInit == JI
JNext == JN(Verdict)
=============================================================================
