------------------------------- MODULE PostProc -------------------------------
(* The steps that run after matching: replacing tags, grouping, expanding to     *)
(* untagged text, removing untagged text, finding line numbers, segmentation.     *)
(* Tokens carry in addition  n: their number (-1: not a number),                  *)
(*                           d: consists of digits (and dots) only                *)
EXTENDS TeiDoc

(* positions <<line, token>> of the non-blank tokens, in order *)
SolidPos(doc) ==
  Flat([l \in 1..Len(doc) |->
         SelectSeq([k \in 1..Len(doc[l]) |-> <<l, k>>], LAMBDA p : ~doc[p[1]][p[2]].sp)])
At(doc, p) == doc[p[1]][p[2]]
Fn(pairs, v, dflt) ==   \* lookup in a sequence of <<key, value>>
  LET ks == {k \in 1..Len(pairs) : pairs[k][1] = v}
  IN IF ks = {} THEN dflt ELSE pairs[CHOOSE k \in ks : \A j \in ks : k <= j][2]
Mapped(pairs, v) == \E k \in 1..Len(pairs) : pairs[k][1] = v

(****************************** replacing tags ******************************)
ReplaceTags(doc, pairs) ==
  FoldLeft(LAMBDA d, p :
             LET m == Main(At(doc, p))
             IN IF m # NoTag /\ Mapped(pairs, Val(m))
                THEN SetMain(d, p[1], p[2], Tag(Prefix(m), Fn(pairs, Val(m), "")))
                ELSE d,
           doc, SolidPos(doc))
(* what it is for *)
ReplacedAsListed(doc, after, pairs) ==
  \A q \in 1..Len(SolidPos(doc)) :
    LET p == SolidPos(doc)[q]
        m == Main(At(doc, p))
    IN (m # NoTag /\ Mapped(pairs, Val(m))) =>
         IF Fn(pairs, Val(m), "") = "" THEN At(after, p).t = NoTag
         ELSE Main(At(after, p)) = Tag(Prefix(m), Fn(pairs, Val(m), ""))

(********************************* grouping *********************************)
GroupTag(tok, level) == IF level = 2 THEN Sub(tok) ELSE Main(tok)
SetLevelOnly(doc, p, level, tag) ==
  IF level = 2 THEN SetSubOnly(doc, p[1], p[2], tag) ELSE SetMainOnly(doc, p[1], p[2], tag)
MergeGroups(doc, pairs, level) ==
  FoldLeft(LAMBDA a, p :
             LET tok == At(doc, p)
             IN IF level = 2 /\ Main(tok) = NoTag THEN a
                ELSE IF GroupTag(tok, level) # NoTag
                     THEN [a EXCEPT !.g = Fn(pairs, Val(GroupTag(tok, level)), "")]
                ELSE IF a.g = "" THEN a
                ELSE [a EXCEPT !.d = SetLevelOnly(a.d, p, level, I(a.g))],
           [d |-> doc, g |-> ""], SolidPos(doc)).d

(******************************** expanding *********************************)
ExpandPrevious(doc, enabled) ==
  FoldLeft(LAMBDA a, p :
             LET v == Val(Main(At(doc, p)))
             IN IF v = "" THEN [a EXCEPT !.q = Append(a.q, p)]
                ELSE IF a.q = <<>> THEN a
                ELSE IF v \notin enabled THEN [a EXCEPT !.q = <<>>]
                ELSE [q |-> <<>>,
                      d |-> SetMainOnly(
                              FoldLeft(LAMBDA d, k :
                                         SetMainOnly(d, a.q[k][1], a.q[k][2],
                                                     IF k = 1 THEN B(v) ELSE I(v)),
                                       a.d, [k \in 1..Len(a.q) |-> k]),
                              p[1], p[2], I(v))],
           [d |-> doc, q |-> <<>>], SolidPos(doc)).d
ExpandFollowing(doc, enabled) ==
  FoldLeft(LAMBDA a, p :
             LET v == Val(Main(At(doc, p)))
             IN IF v # "" THEN [a EXCEPT !.v = IF v \in enabled THEN v ELSE ""]
                ELSE IF a.v = "" THEN a
                ELSE [a EXCEPT !.d = SetMainOnly(a.d, p[1], p[2], I(a.v))],
           [d |-> doc, v |-> ""], SolidPos(doc)).d
(* Independent of how it is done: a step of this kind only ever tags text that    *)
(* had no annotation, and such text gets the annotation of its nearest annotated   *)
(* neighbour on that side if that one is enabled, and none otherwise.              *)
Neighbour(doc, q, dir) ==
  LET ps == SolidPos(doc)
      cand == IF dir = "after" THEN {k \in (q + 1)..Len(ps) : Main(At(doc, ps[k])) # NoTag}
              ELSE {k \in 1..(q - 1) : Main(At(doc, ps[k])) # NoTag}
  IN IF cand = {} THEN ""
     ELSE Val(Main(At(doc, ps[IF dir = "after" THEN CHOOSE k \in cand : \A j \in cand : k <= j
                              ELSE CHOOSE k \in cand : \A j \in cand : k >= j])))
ExpandedAsNeighbour(doc, after, enabled, dir) ==
  LET ps == SolidPos(doc)
  IN \A q \in 1..Len(ps) :
       LET was == Main(At(doc, ps[q])) is == Main(At(after, ps[q]))
           v == Neighbour(doc, q, dir)
       IN IF was # NoTag THEN Val(is) = Val(was)
          ELSE Val(is) = (IF v \in enabled THEN v ELSE "")

(*************************** removing untagged text ***************************)
RemoveUntagged(doc) ==
  LET Step(a, tok) ==
        IF tok.sp THEN (IF a.on \/ tok.t # NoTag THEN [a EXCEPT !.line = Append(a.line, tok)] ELSE a)
        ELSE IF tok.t = NoTag THEN [a EXCEPT !.on = FALSE]
        ELSE [a EXCEPT !.on = TRUE, !.line = Append(a.line, tok)]
      Line(a, l) ==
        LET b == FoldLeft(Step, a, doc[l])
        IN IF b.line = <<>> THEN b
           ELSE [b EXCEPT !.doc = Append(b.doc, b.line), !.line = <<>>]
  IN FoldLeft(Line, [doc |-> <<>>, line |-> <<>>, on |-> TRUE], [l \in 1..Len(doc) |-> l]).doc
(* exactly the tagged text remains, once, in order, with its tags *)
OnlyTaggedRemains(doc, after) ==
  Solid(after) = SelectSeq(Solid(doc), LAMBDA tok : tok.t # NoTag)
(* and begins an annotation where it did before, by itself or the blanks before it *)
BeginsOf(doc) ==
  LET Step(a, tok) ==
        IF tok.sp THEN [a EXCEPT !.b = IF Prefix(tok.t) = "b" THEN @ \cup {Val(tok.t)} ELSE @]
        ELSE [b |-> {}, out |-> IF tok.t = NoTag THEN a.out
                                ELSE Append(a.out, Prefix(tok.t) = "b" \/ Val(tok.t) \in a.b)]
  IN FoldLeft(Step, [b |-> {}, out |-> <<>>], Flat(doc)).out

BeginsRemain(doc, after) ==
  LET a == BeginsOf(doc) b == BeginsOf(after)
  IN Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] => b[k]

(******************************* line numbers ********************************)
(* cfg: min, gap, ratio as <<numerator, denominator>>, tag                        *)
FirstTokens(doc) ==   \* positions of the first non-blank token of every line that has one
  SelectSeq([l \in 1..Len(doc) |->
              LET ks == {k \in 1..Len(doc[l]) : ~doc[l][k].sp}
              IN IF ks = {} THEN <<l, 0>> ELSE <<l, CHOOSE k \in ks : \A j \in ks : k <= j>>],
            LAMBDA p : p[2] # 0)
LineNumberTokens(doc, cfg) ==
  LET first == FirstTokens(doc)
      cand == SelectSeq([k \in 1..Len(first) |-> [p |-> first[k], n |-> At(doc, first[k]).n, i |-> k]],
                        LAMBDA c : c.n > 0)
      sorted == SortSeq(cand, LAMBDA a, b : a.n < b.n \/ (a.n = b.n /\ a.i < b.i))
      Step(seqs, c) ==
        IF seqs = <<>> THEN << <<c>> >>
        ELSE LET last == Last1(Last1(seqs))
             IN IF c.i < last.i \/ c.n = last.n THEN seqs
                ELSE IF c.n <= last.n + 1 + cfg.gap
                     THEN Append(Front(seqs), Append(Last1(seqs), c))
                ELSE Append(seqs, <<c>>)
      seqs == FoldLeft(Step, <<>>, sorted)
      accepted == Flat(SelectSeq(seqs, LAMBDA s : Len(s) >= cfg.min))
  IN IF Len(accepted) < cfg.min \/ Len(accepted) = 0
        \/ Len(accepted) * cfg.ratio[2] < cfg.ratio[1] * Len(first)
     THEN <<>> ELSE [k \in 1..Len(accepted) |-> accepted[k].p]
AnnotateLineNumbers(doc, cfg) ==
  FoldLeft(LAMBDA d, p : SetMain(d, p[1], p[2], <<"", cfg.tag>>), doc, LineNumberTokens(doc, cfg))
(* what a user relies on: only positive numbers that start their line are tagged,  *)
(* they increase down the page, there are enough of them, and nothing else changes *)
LineNumbersSound(doc, after, cfg) ==
  LET ps == SolidPos(doc)
      changed == {k \in 1..Len(ps) : At(after, ps[k]).t # At(doc, ps[k]).t}
      tagged == SelectSeq(ps, LAMBDA p : At(after, p).t = <<"", cfg.tag>>
                                         /\ At(doc, p).t # <<"", cfg.tag>>)
      lines == Cardinality({p[1] : p \in Range1(ps)})
  IN /\ \A k \in changed : /\ At(after, ps[k]).t = <<"", cfg.tag>>
                           /\ At(doc, ps[k]).n > 0
                           /\ ~\E j \in 1..(k - 1) : ps[j][1] = ps[k][1]
     /\ (tagged # <<>> /\ \A k \in 1..Len(ps) : At(doc, ps[k]).t # <<"", cfg.tag>>) =>
          /\ Len(tagged) >= cfg.min
          /\ Len(tagged) * cfg.ratio[2] >= cfg.ratio[1] * lines

(******************************** segmentation ********************************)
(* cfg: map: sequence of <<tag value, segment>>, frontMax, headMax, noMergeRef,     *)
(*      preserve                                                                   *)
SetLine(line, tag) ==
  FoldLeft(LAMBDA l, k : SetMainInLine(l, k, tag), line, [k \in 1..Len(line) |-> k])
ClearLine(line) ==
  FoldLeft(LAMBDA l, k : IF l[k].t # NoTag THEN SetMainInLine(l, k, NoTag) ELSE l,
           line, [k \in 1..Len(line) |-> k])
SolidOf(line) == SelectSeq(line, LAMBDA tok : ~tok.sp)
LineText(line) == [k \in 1..Len(SolidOf(line)) |-> SolidOf(line)[k].x]
Majority(line) ==     \* most frequent tag value, the first one of equally frequent ones
  LET s == SolidOf(line)
      Count(k) == Cardinality({j \in 1..Len(s) : Val(s[j].t) = Val(s[k].t)})
      best == {k \in 1..Len(s) : \A j \in 1..Len(s) : Count(j) <= Count(k)}
  IN Val(s[CHOOSE k \in best : \A j \in best : k <= j].t)

(* a segmented line: [l: tokens, g: segment or "" (none)] *)
SegLine(line, cfg) ==
  IF SolidOf(line) = <<>> THEN [l |-> line, g |-> ""]
  ELSE LET m == Majority(line)
           g == IF m = "" THEN "" ELSE Fn(cfg.map, m, "")
       IN [l |-> IF g # "" /\ g = m
                 THEN (IF cfg.noMergeRef THEN line ELSE SetLine(line, <<"", g>>))
                 ELSE IF g # "" THEN SetLine(line, <<"", g>>)
                 ELSE IF m = "" THEN ClearLine(line) ELSE line,
           g |-> IF g # "" THEN g ELSE m]
SetSeg(ls, k, g) == [ls EXCEPT ![k] = [l |-> SetLine(ls[k].l, <<"", g>>), g |-> g]]
SetSegs(ls, ks, g) == [k \in 1..Len(ls) |-> IF k \in ks THEN SetSeg(ls, k, g)[k] ELSE ls[k]]

LateFront(ls, cfg) ==     \* front blocks that start too late are no front
  IF cfg.frontMax = 0 THEN ls
  ELSE LET Start(k) == CHOOSE s \in 1..k : /\ \A j \in s..k : ls[j].g = ls[k].g
                                           /\ (s = 1 \/ ls[s - 1].g # ls[k].g)
       IN [k \in 1..Len(ls) |->
             IF ls[k].g = "front" /\ Start(k) - 1 > cfg.frontMax
             THEN [l |-> ClearLine(ls[k].l), g |-> ""] ELSE ls[k]]
HasPage(line) == \E k \in 1..Len(line) : ~line[k].sp /\ Val(Main(line[k])) = "page"
PreservedPages(ls, cfg) ==
  IF ~cfg.preserve THEN ls
  ELSE SetSegs(ls, {k \in 1..Len(ls) : ls[k].g = "" /\ HasPage(ls[k].l)}, "page")
PageNumber(line) ==      \* the number a line consists of, -1 if there is none
  LET s == SolidOf(line) IN IF Len(s) = 1 THEN s[1].n ELSE -1
MissingPages(ls) ==      \* increasing numbers between the known page numbers
  LET known == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : ls[k].g = "page")
      cand == SelectSeq([k \in 1..Len(ls) |-> k],
                        LAMBDA k : ls[k].g = "" /\ PageNumber(ls[k].l) >= 0)
      Known(a, e) ==
        LET maxp == PageNumber(ls[e].l) - 1
            b == FoldLeft(LAMBDA c, k :
                            IF k < a.minLine \/ k > e \/ PageNumber(ls[k].l) < c.minPage
                               \/ PageNumber(ls[k].l) > maxp THEN c
                            ELSE [c EXCEPT !.set = c.set \cup {k},
                                           !.minPage = PageNumber(ls[k].l) + 1],
                          a, cand)
        IN [b EXCEPT !.minLine = e, !.minPage = maxp + 1]
      found == FoldLeft(Known, [minLine |-> 1, minPage |-> 1, set |-> {}], known).set
  IN SetSegs(ls, found, "page")
Headers(ls, cfg) ==      \* texts repeated on several untagged lines
  LET unt == {k \in 1..Len(ls) : ls[k].g = ""}
      Same(k) == {j \in unt : LineText(ls[j].l) = LineText(ls[k].l)}
      FirstOf(k) == CHOOSE f \in 1..k : /\ LineText(ls[f].l) = LineText(ls[k].l)
                                        /\ \A j \in 1..(f - 1) : LineText(ls[j].l) # LineText(ls[k].l)
      Ok(k) == /\ Cardinality(Same(k)) >= 2
               /\ Len(SolidOf(ls[k].l)) >= 2
               /\ \E j \in 1..Len(SolidOf(ls[k].l)) : ~SolidOf(ls[k].l)[j].d
               /\ FirstOf(k) - 1 < cfg.headMax
      okk == {k \in unt : Ok(k)}
      top == CHOOSE c \in 0..Len(ls) : /\ (okk = {} => c = 0)
                                       /\ (okk # {} => \E k \in okk : Cardinality(Same(k)) = c)
                                       /\ \A k \in okk : Cardinality(Same(k)) <= c
      acc == {k \in okk : Cardinality(Same(k)) >= Max2(2, top - 1)}
      texts == {LineText(ls[k].l) : k \in acc}
  IN SetSegs(ls, {k \in 1..Len(ls) : LineText(ls[k].l) \in texts}, "headnote")
MergeSegs(ls, cfg) ==
  LET enabled == {"front", "annex"} \cup (IF cfg.noMergeRef THEN {} ELSE {"reference"})
      Step(a, k) ==
        LET g == a.ls[k].g
            prev == IF g # "" THEN g ELSE a.prev
            c0 == IF g # "" /\ g # a.prev THEN {} ELSE a.c
        IN IF g \in {"headnote", "page"} THEN a
           ELSE IF g \in enabled
                THEN [ls |-> SetSegs(a.ls, c0, g), c |-> {}, prev |-> prev]
           ELSE IF g # "" THEN [a EXCEPT !.c = {}, !.prev = prev]
           ELSE IF cfg.preserve /\ HasPage(a.ls[k].l) THEN a
           ELSE IF prev \in enabled THEN [a EXCEPT !.c = c0 \cup {k}]
           ELSE a
      r == FoldLeft(Step, [ls |-> ls, c |-> {}, prev |-> "front"], [k \in 1..Len(ls) |-> k])
  IN IF r.prev = "annex" THEN SetSegs(r.ls, r.c, "annex") ELSE r.ls
Segment(doc, cfg) ==
  LET l1 == [k \in 1..Len(doc) |-> SegLine(doc[k], cfg)]
      l2 == MergeSegs(Headers(MissingPages(PreservedPages(LateFront(l1, cfg), cfg)), cfg), cfg)
      l3 == IF cfg.preserve THEN l2
            ELSE SetSegs(l2, {k \in 1..Len(l2) : l2[k].g = ""}, "body")
  IN [k \in 1..Len(l3) |-> l3[k].l]
(* what a user relies on, independent of the steps *)
LineVals(line) == {Val(line[k].t) : k \in {j \in 1..Len(line) : ~line[j].sp}}
WholeLines(doc, after, cfg) ==   \* a segment is a whole line
  \A l \in 1..Len(after) :
    (SolidOf(after[l]) # <<>> /\ ~(cfg.noMergeRef)
     /\ \A v \in LineVals(doc[l]) : v = "" \/ Mapped(cfg.map, v))
    => \E v \in {""} \cup {"front", "body", "page", "headnote", "reference", "annex"}
                 \cup {cfg.map[k][2] : k \in 1..Len(cfg.map)} : LineVals(after[l]) = {v}
NoneUntagged(doc, after, cfg) ==   \* without preserving every line ends up in a segment
  (~cfg.preserve /\ ~cfg.noMergeRef) => \A l \in 1..Len(after) :
     (\A v \in LineVals(doc[l]) : v = "" \/ Mapped(cfg.map, v)) => "" \notin LineVals(after[l])
=============================================================================
