-------------------------------- MODULE Checks --------------------------------
(* The quality check of an annotated document: does the text labelled as a field   *)
(* agree with the value of this field in the article?                               *)
(*                                                                                *)
(* tokens carry  cs: their characters, ws: the characters of the white space that    *)
(* follows (none at the end of a line)                                              *)
(* targets: sequence of [name, multi, v: characters]                                 *)
(* asked [match, must: sequences of fields, seg: pairs field -> segment, isSeg]        *)
(* A verdict is "pass", "fail" or "error".                                           *)
EXTENDS PostProc, Integers

(****************** the text labelled as a field (new labels only) **************)
Labelled(doc) ==      \* runs of positions with one label
  FoldLeft(LAMBDA a, p :
             LET t == At(doc, p).t
                 cont == a.on /\ a.out # <<>> /\ Prefix(t) # "b"
                         /\ Val(At(doc, Last1(Last1(a.out))).t) = Val(t)
             IN IF t = NoTag THEN [a EXCEPT !.on = FALSE]
                ELSE IF cont THEN [a EXCEPT !.out[Len(a.out)] = Append(@, p)]
                ELSE [out |-> Append(a.out, <<p>>), on |-> TRUE],
           [out |-> <<>>, on |-> FALSE], SolidPos(doc)).out
TextOf(doc, ps) ==
  Flat([k \in 1..Len(ps) |-> At(doc, ps[k]).cs
                             \o (IF k = Len(ps) THEN <<>> ELSE At(doc, ps[k]).ws)])
FieldText(doc, name) ==
  LET runs == SelectSeq(Labelled(doc), LAMBDA ps : Val(At(doc, ps[1]).t) = name)
  IN Flat([k \in 1..Len(runs) |-> (IF k = 1 THEN <<>> ELSE <<" ">>) \o TextOf(doc, runs[k])])
HasField(doc, name) == \E p \in Range1(SolidPos(doc)) : Val(At(doc, p).t) = name

(********** agreement: the equal characters of a best global alignment ***********)
(* +1 per equal, -1 per different or missing character; lo/hi: fewest and most       *)
(* equal characters of the best alignments                                          *)
Better(S) ==
  LET top == CHOOSE x \in {c.s : c \in S} : \A c \in S : c.s <= x
      best == {c \in S : c.s = top}
  IN [s |-> top, lo |-> CHOOSE x \in {c.lo : c \in best} : \A c \in best : x <= c.lo,
      hi |-> CHOOSE x \in {c.hi : c \in best} : \A c \in best : x >= c.hi]
Plus(c, score, equal) == [s |-> c.s + score, lo |-> c.lo + equal, hi |-> c.hi + equal]
Row(prev, ch, b) ==
  FoldLeft(LAMBDA row, j :
             Append(row, Better({IF b[j] = ch THEN Plus(prev[j], 1, 1) ELSE Plus(prev[j], -1, 0),
                                 Plus(prev[j + 1], -1, 0), Plus(row[j], -1, 0)})),
           <<Plus(prev[1], -1, 0)>>, [j \in 1..Len(b) |-> j])
Equal(a, b) ==
  Last1(FoldLeft(LAMBDA row, ch : Row(row, ch, b),
                 [j \in 1..(Len(b) + 1) |-> [s |-> 1 - j, lo |-> 0, hi |-> 0]], a))
(* at least four fifths *)
Agrees(a, b, equal) == Max2(Len(a), Len(b)) > 0 /\ 5 * equal >= 4 * Max2(Len(a), Len(b))
CompareWhole(value, text) ==
  LET e == Equal(value, text)
      \* the alignment library may count one character too many
  IN {v \in {"pass", "fail"} : \E m \in {e.lo, e.hi + 1} : (v = "pass") = Agrees(value, text, m)}

(* within the text of a segment: it is there, or too little of it is there *)
Inside(value, text) ==
  \E p \in 1..(Len(text) - Len(value) + 1) : SubSeq(text, p, p + Len(value) - 1) = value
Solid1(value) == SelectSeq(value, LAMBDA c : c # " ")
Present(value, text) ==
  Cardinality({k \in 1..Len(value) : \E j \in 1..Len(text) : text[j] = value[k]})
CompareInside(value, text) ==
  IF Inside(value, text) THEN {"pass"}
  ELSE IF 5 * Present(Solid1(value), text) < 4 * Len(Solid1(value)) THEN {"fail"} ELSE {"pass", "fail"}

(************************************ verdict ************************************)
Asked(asked) == Range1(asked.match) \cup Range1(asked.must)
OfField(targets, f) == SelectSeq(targets, LAMBDA t : t.name = f)
Given(targets, asked) == {f \in Asked(asked) : OfField(targets, f) # <<>>}
FieldVerdict(doc, targets, asked, f) ==
  LET value == OfField(targets, f)[1].v
      name == IF asked.isSeg THEN Fn(asked.seg, f, f) ELSE f
  IN IF ~HasField(doc, name) THEN {"fail"}
     ELSE IF asked.isSeg THEN CompareInside(value, FieldText(doc, name))
     ELSE CompareWhole(value, FieldText(doc, name))
Verdicts(doc, targets, asked) ==      \* the possible verdicts
  IF Asked(asked) = {} THEN {"pass"}
  ELSE IF \E f \in Given(targets, asked) :
            Len(OfField(targets, f)) # 1 \/ OfField(targets, f)[1].multi THEN {"error"}
  ELSE IF Range1(asked.must) \ Given(targets, asked) # {} THEN {"fail"}
  ELSE LET vs == {FieldVerdict(doc, targets, asked, f) : f \in Given(targets, asked)}
       IN (IF \A v \in vs : "pass" \in v THEN {"pass"} ELSE {})
          \cup (IF \E v \in vs : "fail" \in v THEN {"fail"} ELSE {})
=============================================================================
