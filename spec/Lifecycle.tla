----------------------------- MODULE Lifecycle -----------------------------
(* The life of the records of one open font: every record is in memory       *)
(* either as the bytes that were read or written, or as a decoded value that *)
(* the user may replace.  Saving encodes everything and writes it.           *)
(*                                                                           *)
(* Values: 0 is what the file contained, 1.. are edits, Bad cannot be        *)
(* encoded.  Bytes are "orig", the bytes of the file, or "new".              *)
(* The original bytes of the records in Broken are damaged: decoding them is *)
(* refused, err tells that it was tried.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NEnt, Glyphs, Broken, Depth, Show
BadVal == 9
VARIABLES ent, file, last, touched, err, hist
vars == <<ent, file, last, touched, err, hist>>
Ents == 1..NEnt
Edits == {1, 2}

\* what happens to one record
Damaged(i, r) == i \in Broken /\ r.rep = "raw" /\ r.bytes = "orig"
Dec(r) == [r EXCEPT !.rep = "dec"]
DecOf(i, r) == IF Damaged(i, r) THEN r ELSE Dec(r)
Refused(es, is) == \E i \in is : Damaged(i, es[i])
\* decoding several records stops at the first damaged one
DecAll(es, is) == [i \in Ents |-> IF i \in is /\ ~\E j \in is : j <= i /\ Damaged(j, es[j]) THEN Dec(es[i]) ELSE es[i]]
Enc(r) == IF r.rep = "dec" /\ r.val # BadVal THEN [r EXCEPT !.rep = "raw", !.bytes = "new"] ELSE r
Set(r, v) == [r EXCEPT !.rep = "dec", !.val = v]
Stuck(es) == {i \in Ents : es[i].rep = "dec" /\ es[i].val = BadVal}
FirstStuck(es) == IF Stuck(es) = {} THEN NEnt + 1 ELSE CHOOSE i \in Stuck(es) : \A j \in Stuck(es) : i <= j
\* encoding stops at the first record that cannot be encoded
EncAll(es) == [i \in Ents |-> IF i < FirstStuck(es) THEN Enc(es[i]) ELSE es[i]]

Init == /\ ent = [i \in Ents |-> [rep |-> "raw", val |-> 0, bytes |-> "orig"]]
        /\ file = <<>> /\ last = [i \in Ents |-> 0] /\ touched = {} /\ err = FALSE /\ hist = <<>>
Log(op, i, v) == hist' = Append(hist, [op |-> op, i |-> i, v |-> v])

Decode(i) == /\ ent' = [ent EXCEPT ![i] = DecOf(i, @)] /\ touched' = touched \cup {i} /\ Log("dec", i, 0)
             /\ err' = (err \/ Damaged(i, ent[i])) /\ UNCHANGED <<file, last>>
Encode(i) == ent' = [ent EXCEPT ![i] = Enc(@)] /\ Log("enc", i, 0) /\ UNCHANGED <<file, last, touched, err>>
Edit(i, v) == /\ ent' = [ent EXCEPT ![i] = Set(@, v)] /\ last' = [last EXCEPT ![i] = v]
              /\ touched' = touched \cup {i} /\ Log("edit", i, v) /\ UNCHANGED <<file, err>>
DecodeAll == /\ ent' = DecAll(ent, Ents) /\ touched' = Ents /\ Log("decall", 0, 0) /\ err' = Refused(ent, Ents)
             /\ UNCHANGED <<file, last>>
EncodeAll == ent' = EncAll(ent) /\ Log("encall", 0, 0) /\ UNCHANGED <<file, last, touched, err>>
\* looking up glyphs by name decodes the glyph records
Lookup == /\ ent' = DecAll(ent, Glyphs) /\ err' = (err \/ Refused(ent, Glyphs))
          /\ touched' = touched \cup Glyphs /\ Log("lookup", 0, 0) /\ UNCHANGED <<file, last>>
\* showing the font, asking for sizes or headers, working on another font
View(op) == Log(op, 0, 0) /\ UNCHANGED <<ent, file, last, touched, err>>
Save(op) == LET e2 == EncAll(ent) IN
        /\ ent' = e2 /\ Log(op, 0, 0)
        /\ IF Stuck(ent) = {} THEN file' = <<e2, last, touched>> ELSE file' = file
        /\ UNCHANGED <<last, touched, err>>
Reread == /\ file # <<>> /\ ent' = file[1] /\ last' = file[2] /\ touched' = file[3]
          /\ err' = FALSE /\ Log("reread", 0, 0) /\ UNCHANGED file
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in Ents : Decode(i) \/ Encode(i) \/ \E v \in Edits \cup {BadVal} : Edit(i, v)
           \/ DecodeAll \/ EncodeAll \/ Lookup \/ View("json") \/ View("other")
           \/ Save("save") \/ Save("savefile") \/ Reread

\* one thing twice in a row is the same as once
ASSUME \A rep \in {"raw", "dec"}, v \in {0, 1, BadVal}, b \in {"orig", "new"} :
    LET r == [rep |-> rep, val |-> v, bytes |-> b] IN
    Dec(Dec(r)) = Dec(r) /\ Enc(Enc(r)) = Enc(r)
Latest == \A i \in Ents : ent[i].val = last[i]
Untouched == \A i \in Ents : i \notin touched => ent[i] = [rep |-> "raw", val |-> 0, bytes |-> "orig"]
\* bytes other than the original ones only come from encoding
Original == \A i \in Ents : ent[i].rep = "raw" /\ ent[i].bytes = "orig" => ent[i].val = 0
FileLatest == file # <<>> => /\ \A i \in Ents : file[1][i].rep = "raw" /\ file[1][i].val = file[2][i]
                             /\ \A i \in Ents : file[1][i].val # BadVal
SaveIsLatest == (hist # <<>> /\ hist[Len(hist)].op \in {"save", "savefile"} /\ Stuck(ent) = {})
                => file[1] = ent /\ file[2] = last
\* damaged records keep their bytes until they are replaced; a refusal is never silent
BrokenKept == \A i \in Broken : last[i] = 0 =>
                 /\ ent[i] = [rep |-> "raw", val |-> 0, bytes |-> "orig"]
                 /\ file # <<>> => (file[2][i] = 0 => file[1][i] = ent[i])
Flagged == (hist # <<>> /\ LET h == hist[Len(hist)] IN
              h.op \in {"dec", "decall", "lookup"} /\ Refused(ent, IF h.op = "dec" THEN {h.i} ELSE IF h.op = "decall" THEN Ents ELSE Glyphs))
           => err
NoFalseFlag == err => Broken # {}
Emit == (Show /\ Len(hist) = Depth) => PrintT(<<"H", ToJson(hist)>>)
Quiet == [ent |-> ent, file |-> file, last |-> last, touched |-> touched, err |-> err, n |-> Len(hist),
          o |-> IF hist = <<>> THEN "" ELSE hist[Len(hist)].op]
=============================================================================
