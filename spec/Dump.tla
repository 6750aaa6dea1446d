-------------------------------- MODULE Dump --------------------------------
(* What a file says, record by record: the dump shows it, and two files      *)
(* differ if it differs.  A file is read by the machine of VfbFile and       *)
(* decoded by Records and Glyph.                                             *)
EXTENDS Glyph, VfbFile, Json
Names == JsonDeserialize("names.json")
Label(id) == IF ToString(id) \in DOMAIN Names THEN Names[ToString(id)] ELSE ToString(id)
HeaderSays(minor) == <<"d", [signature |-> I(1179408154), app_version |-> I(49), file_version |-> I(48),
                       version_major |-> I(3), version_minor |-> I(minor)]>>
\* the number of masters, the platform and the numbers of stems are those of the context
Content(b, c) == LET r == RunReader(b, {})
                 IN [i \in DOMAIN r.entries |->
                       [id |-> r.entries[i].id, v |-> DecodeAny(r.entries[i].id, r.entries[i].data, c), b |-> r.entries[i].data]]
\* reals that JSON cannot express
Finite(bs) == ~(bs[8] % 128 = 127 /\ bs[7] >= 240)
RECURSIVE JsonForm(_)
JsonForm(s) == CASE s[1] = "f" -> IF Finite(s[2]) THEN s ELSE None
             [] s[1] = "l" -> <<"l", [k \in DOMAIN s[2] |-> JsonForm(s[2][k])]>>
             [] s[1] = "d" -> <<"d", [k \in DOMAIN s[2] |-> JsonForm(s[2][k])]>>
             [] s[1] \in {"od", "m", "sd"} -> <<s[1], [k \in DOMAIN s[2] |-> <<s[2][k][1], JsonForm(s[2][k][2])>>]>>
             [] OTHER -> s
\* texts that JSON cannot express: halves of characters
RECURSIVE Halves(_)
Halves(s) == CASE s[1] = "s" -> \E k \in DOMAIN s[2] : s[2][k] \in 55296..57343
               [] s[1] \in {"l", "d"} -> \E k \in DOMAIN s[2] : Halves(s[2][k])
               [] s[1] \in {"od", "m", "sd"} -> \E k \in DOMAIN s[2] : Halves(s[2][k][2])
               [] OTHER -> FALSE
RawText(data) == HexText(data)
\* one line of the dump: key, size (a list), text or value; nothing is claimed about
\* the value of damaged records
LineVerdict(x, l, o, c) ==
    CASE l.key # Label(x.id) -> "a record under another name"
      [] l.extra # <<>> -> "something that is not in the record"
      [] o.raw ->
            IF l.size # <<Len(x.b)>> THEN "the size of an undecoded record"
            ELSE IF l.dec[1] # "s" \/ l.dec[2] # RawText(x.b) THEN "the bytes of an undecoded record" ELSE "ok"
      [] x.v = Bad -> "ok"
      [] l.size # <<>> -> "a size for a decoded record"
      [] o.trip /\ IsGlyph(x.id) ->
            IF l.dec[1] # "d" \/ ~Same(JsonForm(Meaning(x.v)), Meaning(l.dec)) THEN "the meaning of a glyph differs" ELSE "ok"
      [] ~Same(JsonForm(x.v), l.dec) -> "the value of a record differs"
      [] OTHER -> "ok"
\* again: the bytes of the records when the file is saved after decoding (they are shown by -r -d)
DumpVerdict(b, c, o, again, d) ==
    LET r == RunReader(b, {})
        ys == IF o.header THEN <<>> ELSE Content(b, c)
        xs == IF o.raw /\ o.trip /\ Len(again) = Len(ys) THEN [i \in DOMAIN ys |-> [ys[i] EXCEPT !.b = again[i]]] ELSE ys
        bad == {i \in DOMAIN xs : LineVerdict(xs[i], d.entries[i], o, c) # "ok"}
        damaged == ~o.raw /\ \E i \in DOMAIN xs : xs[i].v = Bad \/ Halves(xs[i].v)
    IN CASE ~d.ok /\ damaged -> "ok"     \* it ends in an error
         [] ~d.ok -> "there is no dump, or it is not JSON"
         [] d.other # <<>> -> "something that is not in the file"
         [] ~(IF o.raw /\ o.trip /\ d.header[1] = "s" THEN d.header[2] = HexText(HeaderBytes(r.minor))
              ELSE Same(HeaderSays(r.minor), d.header)) -> "the header differs"
         [] Len(d.entries) # Len(xs) -> "records are missing or added"
         [] bad # {} -> LineVerdict(xs[CHOOSE i \in bad : \A j \in bad : i <= j], d.entries[CHOOSE i \in bad : \A j \in bad : i <= j], o, c)
         [] OTHER -> "ok"

\* --- texts read as Unicode (-u): the bytes are UTF-8 ---------------------------
RECURSIVE Utf8At(_, _)
Utf8At(b, p) ==
    LET more(n) == IF p + n <= Len(b) THEN \A k \in 1..n : b[p + k] \in 128..191 ELSE FALSE
        go(c, n) == <<c>> \o Utf8At(b, p + n + 1)
        six(k) == b[p + k] - 128
    IN CASE p > Len(b) -> <<>>
         [] b[p] < 128 -> go(b[p], 0)
         [] b[p] \in 194..223 /\ more(1) -> go((b[p] - 192) * 64 + six(1), 1)
         [] b[p] \in 224..239 /\ more(2) -> go((b[p] - 224) * 4096 + six(1) * 64 + six(2), 2)
         [] b[p] \in 240..244 /\ more(3) -> go((b[p] - 240) * 262144 + six(1) * 4096 + six(2) * 64 + six(3), 3)
         [] OTHER -> <<-1>>
UnicodeVerdict(b, out) ==
    CASE -1 \in Range(Utf8At(b, 1)) \/ Text(b, 1, Len(b)) = Bad -> "malformed example"
      [] ~out.ok -> "there is no dump with -u"
      [] out.text = Utf8At(b, 1) -> "ok"
      [] <<"s", out.text>> = Text(b, 1, Len(b)) -> "a text is read as Windows-1252 despite -u"
      [] OTHER -> "a text is misread with -u"

\* --- comparing ---------------------------------------------------------------
\* what must be told apart (empty parts of glyphs say nothing), and what must not
Say(x, c, plain) == <<Label(x.id), IF x.v = Bad THEN <<"raw", x.b>>
                                   ELSE JsonForm(IF plain /\ IsGlyph(x.id) THEN Meaning(x.v) ELSE x.v)>>
Says(b, c, plain) == LET xs == Content(b, c)
                     IN <<RunReader(b, {}).minor, [i \in DOMAIN xs |-> Say(xs[i], c, plain)]>>
Plainly(b, c) == Says(b, c, TRUE)
Exactly(b, c) == Says(b, c, FALSE)
Damaged(b, c) == LET xs == Content(b, c) IN \E i \in DOMAIN xs : xs[i].v = Bad \/ Halves(xs[i].v)
DiffVerdict(a, b, c, reported) ==
    CASE reported.some /\ Exactly(a, c) = Exactly(b, c) -> "a difference is reported where there is none"
      [] Damaged(a, c) \/ Damaged(b, c) -> "ok"
      [] ~reported.ok -> "the comparison fails"
      [] ~reported.some /\ Plainly(a, c) # Plainly(b, c) -> "a difference is not reported"
      [] OTHER -> "ok"
=============================================================================
