-------------------------------- MODULE Tags --------------------------------
(* Tags of tokens: <<prefix, value>>, prefix "b" (begin), "i" (inside) or "" *)
(* (no prefix); <<"", "">> is "no tag".                                       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

NoTag == <<"", "">>
Val(t) == t[2]
Prefix(t) == t[1]
Tag(p, v) == IF v = "" THEN NoTag ELSE <<p, v>>
B(v) == Tag("b", v)
I(v) == Tag("i", v)
ToInside(t) == IF Prefix(t) = "b" THEN I(Val(t)) ELSE t
Or(t, u) == IF t # NoTag THEN t ELSE u

Range1(s) == {s[k] : k \in 1..Len(s)}
Concat(strs) == FoldLeft(LAMBDA a, b : a \o b, "", strs)
Flat(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, seqs)
Last1(s) == s[Len(s)]
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
(* Longest common prefix of two sequences *)
CommonLen(s, t) ==
  LET n == Min2(Len(s), Len(t))
      Agree(k) == \A j \in 1..k : s[j] = t[j]
  IN CHOOSE k \in 0..n : Agree(k) /\ (k = n \/ ~Agree(k + 1))
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
=============================================================================
