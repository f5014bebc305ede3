------------------------------- MODULE MCLex --------------------------------
(* Every text over a small alphabet: the tokens found are the longest ones of *)
(* the grammar (given here by its productions), nothing is lost; what is said *)
(* about numbers, escapes and UTF-8 agrees with the standard's wording.       *)
EXTENDS Lex, TLC
CONSTANTS Alphabet, N
VARIABLES s, ph
vars == <<s, ph>>
Init == s = <<>> /\ ph = "text"
Next == \/ ph = "text" /\ Len(s) < N /\ \E c \in Alphabet : s' = Append(s, c) /\ ph' = ph
        \/ ph = "text" /\ s = <<>> /\ \E k \in {"num", "byte"} : ph' = k /\ s' = s
        \/ ph = "num" /\ Len(s) < 3 /\ \E c \in {48, 49, 56, 98, 120, 76, 108, 85} : s' = Append(s, c) /\ ph' = ph
        \/ ph = "byte" /\ s = <<>> /\ \E c \in 1..255 : s' = <<c>> /\ ph' = ph
Spec == Init /\ [][Next]_vars

RECURSIVE IsNum(_)
IsNum(w) ==      \* 6.4.8, by the last characters
  LET n == Len(w)
      l == w[n]
      w1 == SubSeq(w, 1, n - 1)
  IN IF n = 0 THEN FALSE
     ELSE \/ n = 1 /\ l \in Digits
          \/ n = 2 /\ w[1] = 46 /\ l \in Digits
          \/ n > 1 /\ l \in IdChar \cup {46} /\ IsNum(w1)
          \/ n > 2 /\ l \in {43, 45} /\ w[n - 1] \in {69, 101, 80, 112} /\ IsNum(SubSeq(w, 1, n - 2))
IsId(w) == w # <<>> /\ w[1] \in IdStart /\ \A i \in 1..Len(w) : w[i] \in IdChar
RECURSIVE Body(_, _)
Body(w, q) == w = <<>> \/ (w[1] \notin {q, 92, NL} /\ Body(Tail(w), q)) \/ (Len(w) > 1 /\ w[1] = 92 /\ w[2] # NL /\ Body(SubSeq(w, 3, Len(w)), q))
IsQuoted(w) ==
  LET u == IF w # <<>> /\ w[1] = 76 THEN Tail(w) ELSE w
  IN Len(u) > 1 /\ u[1] \in {34, 39} /\ u[Len(u)] = u[1] /\ Body(SubSeq(u, 2, Len(u) - 1), u[1])
IsBlock(w) == Len(w) > 3 /\ SubSeq(w, 1, 2) = <<47, 42>> /\ SubSeq(w, Len(w) - 1, Len(w)) = <<42, 47>>
              /\ \A i \in 3..(Len(w) - 2) : ~(w[i] = 42 /\ w[i + 1] = 47)
IsLine(w, s1, e) == Len(w) > 1 /\ SubSeq(w, 1, 2) = <<47, 47>> /\ (\A i \in 1..Len(w) : w[i] # NL) /\ (e > Len(s1) \/ s1[e] = NL)
Whole(w, s1, e) == IsNum(w) \/ IsId(w) \/ IsQuoted(w) \/ w \in Puncts \/ IsBlock(w) \/ IsLine(w, s1, e) \/ (Len(w) = 1 /\ w[1] \in White)
\* a line comment is whole where the line ends; comments and white space win nothing by being longer
RECURSIVE Walk(_, _)
Walk(t, i) ==      \* true when every thing from i on is the longest
  IF i > Len(t) THEN TRUE
  ELSE LET x == Thing(t, i)
           w == SubSeq(t, i, x.e - 1)
           starts(a) == IF Len(w) >= Len(a) THEN SubSeq(w, 1, Len(a)) = a ELSE FALSE
       IN /\ x.e > i
          /\ (x.k = "bad" =>
                \/ (x.e = i + 1 /\ \A e \in (i + 1)..(Len(t) + 1) : ~Whole(SubSeq(t, i, e - 1), t, e))
                \/ (x.e = Len(t) + 1 /\ (starts(<<34>>) \/ starts(<<39>>) \/ starts(<<76, 34>>) \/ starts(<<76, 39>>) \/ starts(<<47, 42>>))
                    /\ \A e \in (i + 1)..(Len(t) + 1) : ~IsQuoted(SubSeq(t, i, e - 1)) /\ ~IsBlock(SubSeq(t, i, e - 1))))
          /\ (x.k # "bad" => Whole(w, t, x.e))
          /\ (x.k \in {"id", "num", "str", "chr", "punct"} =>
                \A e \in (x.e + 1)..(Len(t) + 1) : LET u == SubSeq(t, i, e - 1) IN ~(IsNum(u) \/ IsId(u) \/ u \in Puncts \/ IsQuoted(u) \/ IsBlock(u) \/ IsLine(u, t, e)))
          /\ Walk(t, x.e)
RECURSIVE Cat(_)
Cat(ts) == IF ts = <<>> THEN <<>> ELSE ts[1].s \o Cat(Tail(ts))
Longest == ph = "text" => Walk(Splice(s, 1), 1)
\* without white space and comments nothing is lost
Kept == ph = "text" => LET t == Splice(s, 1)
                           ts == LexFrom(t, 1)
                       IN ((\A i \in 1..Len(t) : t[i] \notin White) /\ (\A i \in 1..Len(t) : t[i] # 47)) => Cat(ts) = t
\* a space between the tokens changes nothing
RECURSIVE Spaced(_)
Spaced(ts) == IF ts = <<>> THEN <<>> ELSE ts[1].s \o <<32>> \o Spaced(Tail(ts))
Stable == ph = "text" => LET ts == Tokens(s) IN Lexable(ts) => Tokens(Spaced(ts)) = ts
\* numbers: 6.4.4.1
Numbers == ph = "num" /\ s # <<>> /\ s[1] \in Digits =>
  LET n == IntConst(s)
      dec == s[1] # 48
      us == Cardinality({i \in 1..Len(s) : s[i] = 85})
      ls == Cardinality({i \in 1..Len(s) : s[i] \in {76, 108}})
  IN (n.k = "int" => /\ FitsIn(n.v, n.t)
                     /\ us <= 1 /\ ls <= 2
                     /\ n.t = (IF us = 1 THEN <<"uint", "ulong", "ullong">> ELSE <<"int", "long", "llong">>)[ls + 1])
     /\ (IsNum(s) /\ us = 0 /\ ls = 0 /\ (\A i \in 1..Len(s) : s[i] \in 48..49) => n.k = "int")
Oct(b) == <<92, 48 + b \div 64, 48 + ((b \div 8) % 8), 48 + (b % 8)>>
HexD(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Hex(b) == <<92, 120, HexD(b \div 16), HexD(b % 16)>>
Quoted(b) == <<34>> \o b \o <<34>>
Us(t) == LET r == StrConst(Tokens(t)) IN IF r.k = "str" THEN [i \in 1..Len(r.us) |-> ToInt(r.us[i])] ELSE <<-1>>
Bytes0 == ph = "byte" /\ s # <<>> =>
  LET b == s[1]
  IN /\ \A f \in {48, 49, 57, 97, 32} : Us(Quoted(Oct(b) \o <<f>>)) = <<b, f, 0>>
     /\ Us(Quoted(Hex(b)) \o <<32>> \o Quoted(<<49>>)) = <<b, 49, 0>>
     /\ (b \notin {34, 92, NL} => Us(Quoted(<<b>>)) = <<b, 0>>)
     /\ \A m \in {1, 3, 40, 120, 257, 1000, 4095} : LET c == 160 + b * m
                             u == Utf8(c)
                         IN (c \notin 55296..57343 /\ c < 1114112) => (U8At(u, 1) = [n |-> Len(u), c |-> c] /\ Us(<<76>> \o Quoted(u)) = <<c, 0>>)
=============================================================================
