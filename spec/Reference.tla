------------------------------- MODULE Reference -------------------------------
(* Tidying up the parts of a reference after matching                             *)
(* (ReferencePostProcessingAnnotator): "et al." belongs to the names in front of   *)
(* it, the dot behind a name belongs to the name, "doi:" in front of an identifier  *)
(* belongs to the identifier (if wanted), parts separated by unlabelled text are     *)
(* one part (where wanted). Every reference is looked at on its own.                 *)
(*                                                                                *)
(* tokens carry in addition  cs: their characters in lower case, cl: the classes    *)
(*   of these ("a": a-z, "w": other word character, "c": colon, "p": any other),     *)
(*   wn: length of the white space that follows (-1: none recorded, end of line)     *)
(* cfg [map: pairs, merge, prefix, suffix, etals: sequences of values, etal: value,  *)
(*      words: pairs <<value, the word in front as characters, <<>>: any word>>]     *)
EXTENDS Matching

Entities(doc) ==      \* the positions of each run of equal main labels
  FoldLeft(LAMBDA a, p :
             IF a # <<>> /\ Val(At(doc, Last1(Last1(a))).t) = Val(At(doc, p).t)
                /\ Prefix(At(doc, p).t) # "b"
             THEN [a EXCEPT ![Len(a)] = Append(Last1(a), p)] ELSE Append(a, <<p>>),
           <<>>, SolidPos(doc))
MapTag(t, map) == Tag(Prefix(t), IF Val(t) = "" THEN "" ELSE Fn(map, Val(t), Val(t)))
SubsAt(doc, ps, cfg) == [k \in 1..Len(ps) |-> MapTag(At(doc, ps[k]).s, cfg.map)]
PutSubs(doc, ps, tags) ==
  FoldLeft(LAMBDA d, k : IF tags[k] = NoTag THEN d ELSE SetSub(d, ps[k][1], ps[k][2], tags[k]),
           doc, [k \in 1..Len(ps) |-> k])

(* et al. *)
EtalTags(tags, cfg) ==
  FoldLeft(LAMBDA a, g :
             IF Val(g[1]) # cfg.etal \/ a.prev = NoTag
             THEN [out |-> a.out \o g,
                   prev |-> IF Val(g[1]) \in Range1(cfg.etals) THEN g[1]
                            ELSE IF g[1] # NoTag THEN NoTag ELSE a.prev]
             ELSE [a EXCEPT !.out = a.out \o
                     [k \in 1..Len(g) |-> IF k = 1 THEN a.prev ELSE ToInside(a.prev)]],
           [out |-> <<>>, prev |-> NoTag], TagGroups(tags)).out

(* the dot behind a name *)
GroupStart(gs, k) == 1 + Len(Flat(SubSeq(gs, 1, k - 1)))
SuffixTags(tags, toks, cfg) ==
  LET gs == TagGroups(tags)
      dot(k) == /\ k > 1 /\ gs[k][1] = NoTag
                /\ Val(gs[k - 1][1]) \in Range1(cfg.suffix)
                /\ toks[GroupStart(gs, k)].cs[1] = "."
  IN Flat([k \in 1..Len(gs) |->
             IF dot(k) THEN <<ToInside(gs[k - 1][1])>> \o Tail(gs[k]) ELSE gs[k]])

(* the word in front of an identifier, with an optional colon: where it starts *)
Joined(toks) ==      \* characters <<class, character, token>>
  Flat([k \in 1..Len(toks) |->
         [j \in 1..Len(toks[k].cs) |-> <<toks[k].cl[j], toks[k].cs[j], k>>]
         \o (IF k = Len(toks) THEN <<>>
             ELSE [j \in 1..(IF toks[k].wn < 0 THEN 1 ELSE toks[k].wn) |-> <<"s", " ", k>>])])
WordStarts(js, word) ==     \* tokens
  LET n == Len(js)
      ends == {n} \cup (IF n > 0 /\ js[n][1] = "c"
                        THEN {n - 1} \cup (IF n > 1 /\ js[n - 1][1] = "s" THEN {n - 2} ELSE {})
                        ELSE {})
      ok(k, e) == /\ k = 1 \/ js[k - 1][1] \notin {"a", "w"}
                  /\ \A j \in k..e : js[j][1] = "a"
                  /\ IF word = <<>> THEN e - k >= 1
                     ELSE [j \in 1..(e - k + 1) |-> js[k + j - 1][2]] = word
  IN {js[k][3] : k \in {h \in 1..n : \E e \in ends : h <= e /\ ok(h, e)}}
PrefixTags(tags, toks, cfg) ==
  LET gs == TagGroups(tags)
      next(k) == IF k = Len(gs) THEN NoTag ELSE gs[k + 1][1]
      starts(k) == WordStarts(Joined(SubSeq(toks, GroupStart(gs, k),
                                            GroupStart(gs, k) + Len(gs[k]) - 1)),
                              Fn(cfg.words, Val(next(k)), <<>>))
      found(k) == gs[k][1] = NoTag /\ next(k) # NoTag /\ Val(next(k)) \in Range1(cfg.prefix)
                  /\ starts(k) # {}
      first(k) == CHOOSE s \in starts(k) : \A h \in starts(k) : s <= h
      out(k) == IF found(k)
                THEN [j \in 1..Len(gs[k]) |-> IF j < first(k) THEN NoTag
                                              ELSE IF j = first(k) THEN next(k)
                                              ELSE ToInside(next(k))]
                ELSE IF k > 1 /\ found(k - 1) THEN <<ToInside(gs[k][1])>> \o Tail(gs[k])
                ELSE gs[k]
  IN Flat([k \in 1..Len(gs) |-> out(k)])

MergeTags(tags, cfg) == ExtendLine(tags, LAMBDA v : v \in Range1(cfg.merge), LAMBDA v : FALSE)

TidyEntity(doc, ps, cfg) ==
  LET toks == [k \in 1..Len(ps) |-> At(doc, ps[k])]
      d1 == PutSubs(doc, ps, EtalTags(SubsAt(doc, ps, cfg), cfg))
      d2 == PutSubs(d1, ps, SuffixTags(SubsAt(d1, ps, cfg), toks, cfg))
      d3 == PutSubs(d2, ps, PrefixTags(SubsAt(d2, ps, cfg), toks, cfg))
  IN PutSubs(d3, ps, MergeTags(SubsAt(d3, ps, cfg), cfg))
Tidy(doc, cfg) == FoldLeft(LAMBDA d, ps : TidyEntity(d, ps, cfg), doc, Entities(doc))

(******************* what it is for, independent of how it is done ***************)
SubVal(doc, p) == Val(At(doc, p).s)
MapVal(v, cfg) == Fn(cfg.map, v, v)
(* labelled parts keep their label (after mapping it); "et al." may become a name *)
PartsKept(doc, after, cfg) ==
  \A p \in Range1(SolidPos(doc)) :
    SubVal(doc, p) # "" =>
      \/ SubVal(after, p) = MapVal(SubVal(doc, p), cfg)
      \/ MapVal(SubVal(doc, p), cfg) = cfg.etal /\ SubVal(after, p) \in Range1(cfg.etals)
(* what gets a label gets one of the same reference, next to it *)
PartsGrow(doc, after, cfg) ==
  \A e \in Range1(Entities(doc)) : \A k \in 1..Len(e) :
    (SubVal(doc, e[k]) = "" /\ SubVal(after, e[k]) # "") =>
      LET v == SubVal(after, e[k])
          was(j) == SubVal(doc, e[j]) # ""
          left == {j \in 1..(k - 1) : was(j)}
          right == {j \in (k + 1)..Len(e) : was(j)}
          l == CHOOSE j \in left : \A h \in left : h <= j
          r == CHOOSE j \in right : \A h \in right : h >= j
      IN \/ left # {} /\ SubVal(after, e[l]) = v
         \/ right # {} /\ SubVal(after, e[r]) = v
(* parts of these kinds are not interrupted by unlabelled text, and are one part   *)
(* (where the labels say where parts begin)                                         *)
WithBegins(doc, e) == \A k \in 1..Len(e) : At(doc, e[k]).s = NoTag \/ Prefix(At(doc, e[k]).s) # ""
PartsWhole(doc, after, cfg) ==
  \A e \in {f \in Range1(Entities(doc)) : WithBegins(doc, f)} : \A k \in 1..Len(e) :
    LET v == SubVal(after, e[k])
        rest == {j \in (k + 1)..Len(e) : SubVal(after, e[j]) # ""}
        n == CHOOSE j \in rest : \A h \in rest : h >= j
    IN (v \in Range1(cfg.merge) /\ rest # {} /\ SubVal(after, e[n]) = v) =>
         /\ n = k + 1
         /\ Prefix(At(after, e[n]).s) # "b"
=============================================================================
