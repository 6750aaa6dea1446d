------------------------------ MODULE MC_Dump ------------------------------
(* All pairs of files one edit apart, over a small set of records: those     *)
(* that say the same in other bytes, those that cannot be decoded, unknown   *)
(* ones.  Comparing is symmetric and tells every edit apart that is one.     *)
EXTENDS Dump
CONSTANTS Depth, Emit
R(id, d) == [id |-> id, data |-> d]
Alphabet == {R(1026, <<65>>), R(1026, <<66>>), R(1027, <<65>>), R(1135, <<1, 0>>), R(1135, <<2, 0>>), R(1135, <<1>>),
             \* the same number in a shorter and a longer form
             R(1028, <<65>>), R(1294, <<139, 139>>), R(1294, <<255, 0, 0, 0, 0, 139>>), R(20000, <<>>), R(20000, <<0>>),
             R(20001, <<0>>),
             \* names with characters that some take for line ends
             R(1138, <<140, 140, 142, 140, 142, 140, 255, 0, 0, 32, 40>>), R(1138, <<140, 140, 142, 140, 142, 140, 255, 0, 0, 32, 41>>),
             R(1138, <<140, 140, 142, 140, 142, 140, 247, 25>>), R(1138, <<140, 140, 142, 140, 142, 140, 149>>)}
Env == [masters |-> 1, platform |-> "macos", v |-> 0, h |-> 0]
VARIABLES a, b, n
Bytes2(es) == FileBytes(0, es)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Edits(s) == {s} \cup {Append(s, r) : r \in Alphabet} \cup {Without(s, i) : i \in DOMAIN s}
            \cup {[s EXCEPT ![i] = r] : i \in DOMAIN s, r \in Alphabet}
            \cup {[s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] : i \in 1..Len(s) - 1}
Init == a = <<>> /\ b = <<>> /\ n = 0
Grow == n < Depth /\ n' = n + 1 /\ a' \in {Append(a, r) : r \in Alphabet} /\ b' = a'
Edit == /\ n < Depth + 1 /\ n' = Depth + 1 /\ a' = a /\ b' \in Edits(a)
        /\ Emit => PrintT(<<"PAIR", ToJson([a |-> a', b |-> b'])>>)
Next == Grow \/ Edit
Spec == Init /\ [][Next]_<<a, b, n>>
Tells(s) == Plainly(Bytes2(s), Env)
Same2 == Tells(a) = Tells(b)
\* the meaning of a file is that of its records, one by one
OneByOne == /\ Same2 <=> (Len(a) = Len(b) /\ \A i \in DOMAIN a : Tells(<<a[i]>>) = Tells(<<b[i]>>))
             /\ (Exactly(Bytes2(a), Env) = Exactly(Bytes2(b), Env)) => Same2
             /\ (Content(Bytes2(a), Env) = Content(Bytes2(b), Env)) <=> (a = b)
=============================================================================
