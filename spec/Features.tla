------------------------------ MODULE Features ------------------------------
(* Feature code: text as sequences of characters.  Reading it breaks it into *)
(* lines and drops surplus blank ones; writing it puts the moved classes in  *)
(* front and renames the kerning classes of positioning rules.               *)
EXTENDS Kerning
LF == 10
CR == 13
Hash == 35
White == {32, 9}
IsBlank(l) == \A i \in DOMAIN l : l[i] \in White
\* --- the machine that breaks text into lines -------------------------------
RECURSIVE Break(_, _, _, _)
Break(t, i, line, acc) ==
    IF i > Len(t) THEN (IF line = <<>> THEN acc ELSE Append(acc, line))
    ELSE IF t[i] = CR /\ i < Len(t) /\ t[i + 1] = LF THEN Break(t, i + 2, <<>>, Append(acc, line))
    ELSE IF t[i] \in {CR, LF} THEN Break(t, i + 1, <<>>, Append(acc, line))
    ELSE Break(t, i + 1, Append(line, t[i]), acc)
LinesOf(t) == Break(t, 1, <<>>, <<>>)
\* not more than two blank lines in a row, and none at the end
RECURSIVE Squeeze(_, _)
Squeeze(ls, c) == IF ls = <<>> THEN <<>>
                  ELSE IF IsBlank(ls[1]) THEN (IF c < 2 THEN <<ls[1]>> ELSE <<>>) \o Squeeze(Tail(ls), c + 1)
                  ELSE <<ls[1]>> \o Squeeze(Tail(ls), 0)
RECURSIVE TrimEnd(_)
TrimEnd(ls) == IF ls = <<>> \/ ~IsBlank(ls[Len(ls)]) THEN ls ELSE TrimEnd(SubSeq(ls, 1, Len(ls) - 1))
RECURSIVE TrimStart(_)
TrimStart(ls) == IF ls = <<>> \/ ~IsBlank(ls[1]) THEN ls ELSE TrimStart(Tail(ls))
Read(t) == TrimEnd(Squeeze(LinesOf(t), 0))

\* --- words of a line --------------------------------------------------------
\* the code before the comment
CodeEnd(l) == LET S == {i \in DOMAIN l : l[i] = Hash} IN IF S = {} THEN Len(l) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
\* words as <<first, last>>: what is in brackets counts as one word
RECURSIVE Words(_, _, _, _)
Words(l, n, i, acc) ==
    IF i > n THEN acc
    ELSE IF l[i] \in White THEN Words(l, n, i + 1, acc)
    ELSE LET stops == {j \in i..n : IF l[i] = 91 THEN l[j] = 93 ELSE j = n \/ l[j + 1] \in White}
             e == IF stops = {} THEN n ELSE CHOOSE j \in stops : \A k \in stops : j <= k
         IN Words(l, n, e + 1, Append(acc, <<i, e>>))
WordsOf(l) == Words(l, CodeEnd(l), 1, <<>>)
Word(l, w) == SubSeq(l, w[1], w[2])
POS == <<112, 111, 115>>
ENUM == <<101, 110, 117, 109>>
Kern(s) == <<64, 112, 117, 98, 108, 105, 99, 46, 107, 101, 114, 110, 48 + s, 46>>
\* "@_x" becomes "@public.kern1._x" where a name starts
RECURSIVE Classed(_, _, _)
Classed(w, s, prev) ==
    IF w = <<>> THEN <<>>
    ELSE (IF w[1] = 64 /\ Len(w) > 1 /\ w[2] = 95 /\ prev \in White \cup {91} THEN Kern(s) ELSE <<w[1]>>)
         \o Classed(Tail(w), s, w[1])
\* the operands of a pair rule, or none
Pair(l) == LET ws == WordsOf(l)
               k == IF Len(ws) > 0 /\ Word(l, ws[1]) = ENUM THEN 1 ELSE 0
           IN IF Len(ws) >= k + 4 /\ Word(l, ws[k + 1]) = POS THEN <<ws[k + 2], ws[k + 3]>> ELSE <<>>
Renamed(l) ==
    LET p == Pair(l)
    IN IF p = <<>> THEN l
       ELSE SubSeq(l, 1, p[1][1] - 1) \o Classed(Word(l, p[1]), 1, 32) \o SubSeq(l, p[1][2] + 1, p[2][1] - 1)
            \o Classed(Word(l, p[2]), 2, 32) \o SubSeq(l, p[2][2] + 1, Len(l))

\* --- features.fea -----------------------------------------------------------
\* the class lines, blank lines, and the code
FeaVerdict(defs, code, fea) ==
    LET n == Len(defs)
    IN CASE Len(fea) < n \/ [i \in 1..n |-> fea[i].s] # defs -> "class definitions in the feature code"
         [] TrimEnd(TrimStart([i \in 1..Len(fea) - n |-> fea[n + i].c])) # TrimStart([i \in DOMAIN code |-> Renamed(code[i])]) ->
              "the feature code differs"
         [] n > 0 /\ code # <<>> /\ Len(fea) > n /\ ~IsBlank(fea[n + 1].c) -> "classes and features run into each other"
         [] OTHER -> "ok"

\* --- prefix and features ----------------------------------------------------
FEATURE == <<102, 101, 97, 116, 117, 114, 101>>
EXTENSION == <<117, 115, 101, 69, 120, 116, 101, 110, 115, 105, 111, 110>>
\* <<tag>> if the line opens a feature: feature tag [useExtension] {
Opens(l) == LET B == {i \in 1..CodeEnd(l) : l[i] = 123}
                b == CHOOSE i \in B : \A j \in B : i <= j
                ws == IF B = {} THEN <<>> ELSE Words(l, b - 1, 1, <<>>)
            IN IF /\ Len(ws) \in {2, 3} /\ Word(l, ws[1]) = FEATURE /\ Len(Word(l, ws[2])) <= 4
                  /\ Len(ws) = 3 => Word(l, ws[3]) = EXTENSION
               THEN <<Word(l, ws[2])>> ELSE <<>>
SplitVerdict(code, d) ==
    LET all == d.prefix \o FoldLeft(LAMBDA a, f : a \o f.code, <<>>, d.features)
    IN CASE all # code -> "lines are lost, added or moved"
         [] \E i \in DOMAIN d.prefix : Opens(d.prefix[i]) # <<>> -> "a feature in the prefix"
         [] \E i \in DOMAIN d.features : d.features[i].code = <<>> \/ Opens(d.features[i].code[1]) # <<d.features[i].tag>> ->
              "an invented feature"
         [] \E i \in DOMAIN d.features : \E j \in 2..Len(d.features[i].code) : Opens(d.features[i].code[j]) # <<>> ->
              "two features in one"
         [] OTHER -> "ok"
=============================================================================
