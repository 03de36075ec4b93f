------------------------------- MODULE Matching -------------------------------
(* Finding the values of an article's fields in the text of a document and       *)
(* labelling them there (SimpleMatchingAnnotator, SubTagOnlyAnnotator).           *)
(*                                                                               *)
(* The text is abstracted to words: every non-blank token carries  w, the word    *)
(* it spells (whatever its case, dashes or quotes); words have no characters in    *)
(* common and the same length, so that a value is found where, and only where,     *)
(* its words follow each other (Matching/approximate text: module Fuzzy).           *)
(*                                                                               *)
(* target [name, vals: sequence of values (one unless multi: a list value),        *)
(*         multi, subs: sequence of [name, v]]                                     *)
(* cfg    [look: sequences searched at a time (0: all), begin: use prefixes,        *)
(*         extend: extend to whole lines, subs: label sub annotations,              *)
(*         keep: keep preserved sub annotations, len: length of a word,             *)
(*         tags: sequence of <<name, [merge, ext, block, alts, pre, preSub]>>]      *)
EXTENDS PostProc

DefaultTagCfg == [merge |-> TRUE, ext |-> TRUE, block |-> "default", alts |-> <<>>,
                  pre |-> 0, preSub |-> ""]
TagCfg(cfg, name) == Fn(cfg.tags, name, DefaultTagCfg)

(************************** text that is still to match *************************)
(* a sequence is a list of positions of one line *)
Untagged(doc, ps) == SelectSeq(ps, LAMBDA p : At(doc, p).t = NoTag)
LineSeqs(doc) ==
  LET line(l) == Untagged(doc, SelectSeq([k \in 1..Len(doc[l]) |-> <<l, k>>],
                                         LAMBDA p : ~At(doc, p).sp))
  IN SelectSeq([l \in 1..Len(doc) |-> line(l)], LAMBDA s : s # <<>>)
(* the runs of positions that are (still) without tag *)
Runs(doc, seq) ==
  LET r == FoldLeft(LAMBDA a, p :
                      IF At(doc, p).t # NoTag
                      THEN [out |-> IF a.cur = <<>> THEN a.out ELSE Append(a.out, a.cur),
                            cur |-> <<>>]
                      ELSE [a EXCEPT !.cur = Append(a.cur, p)],
                    [out |-> <<>>, cur |-> <<>>], seq)
  IN IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)
PendingRuns(doc, seqs, limit) ==
  LET all == Flat([k \in 1..Len(seqs) |-> Runs(doc, seqs[k])])
  IN IF limit > 0 /\ Len(all) > limit THEN SubSeq(all, 1, limit) ELSE all

(********************************** searching **********************************)
Words(doc, ps) == [k \in 1..Len(ps) |-> At(doc, ps[k]).w]
NotFound == <<0, 0>>
Find(ws, v, from) ==   \* first occurrence at or after from, as <<first, last>>
  LET at == {j \in from..(Len(ws) - Len(v) + 1) : SubSeq(ws, j, j + Len(v) - 1) = v}
  IN IF v = <<>> \/ at = {} THEN NotFound
     ELSE LET j == CHOOSE j \in at : \A h \in at : j <= h IN <<j, j + Len(v) - 1>>
FindAny(ws, vs) ==     \* the first of these values that occurs
  LET at == {k \in 1..Len(vs) : Find(ws, vs[k], 1) # NotFound}
  IN IF at = {} THEN NotFound
     ELSE Find(ws, vs[CHOOSE k \in at : \A h \in at : k <= h], 1)
FindSpelled(ws, v, alts) == FindAny(ws, <<v>> \o Fn(alts, v, <<>>))

(* list values: the found parts that are close to each other *)
CharStart(r, len) == (r[1] - 1) * (len + 1)
CharEnd(r, len) == r[2] * (len + 1) - 1
CStart(c, len) == CharStart(c[1], len)
CEnd(c, len) == CharEnd(c[Len(c)], len)
Near(c, d, len) ==
  LET gap == IF CStart(d, len) >= CEnd(c, len) THEN CStart(d, len) - CEnd(c, len)
             ELSE CStart(c, len) - CEnd(d, len)
  IN gap <= Max2(CEnd(c, len) - CStart(c, len), CEnd(d, len) - CStart(d, len)) + 10
RLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
RSort(rs) == SortSeq(rs, LAMBDA a, b : RLeq(a, b) /\ a # b)
RECURSIVE Clusters(_, _)
Clusters(cs, len) ==
  LET step == FoldLeft(LAMBDA a, c :
                         IF Near(Last1(a), c, len)
                         THEN [a EXCEPT ![Len(a)] = RSort(Last1(a) \o c)]
                         ELSE Append(a, c),
                       <<cs[1]>>, Tail(cs))
  IN IF Len(step) = Len(cs) THEN cs ELSE Clusters(step, len)
Hull(rs) ==
  <<CHOOSE x \in {rs[k][1] : k \in 1..Len(rs)} : \A k \in 1..Len(rs) : x <= rs[k][1],
    CHOOSE x \in {rs[k][2] : k \in 1..Len(rs)} : \A k \in 1..Len(rs) : x >= rs[k][2]>>
SelectParts(rs, len) ==
  IF Len(rs) = 1 THEN rs
  ELSE LET sorted == RSort(rs)
           cs == Clusters([k \in 1..Len(sorted) |-> <<sorted[k]>>], len)
           size(k) == CEnd(cs[k], len) - CStart(cs[k], len)
           best == CHOOSE k \in 1..Len(cs) :
                     /\ \A h \in 1..Len(cs) : size(k) >= size(h)
                     /\ \A h \in 1..(k - 1) : size(h) < size(k)
       IN cs[best]
FindTarget(ws, target, cfg) ==
  LET alts == TagCfg(cfg, target.name).alts
  IN IF ~target.multi THEN FindSpelled(ws, target.vals[1], alts)
     ELSE LET found == SelectSeq([k \in 1..Len(target.vals) |->
                                   FindSpelled(ws, target.vals[k], alts)],
                                 LAMBDA r : r # NotFound)
          IN IF found = <<>> THEN NotFound ELSE Hull(SelectParts(found, cfg.len))
(* a word (or the value of a sub annotation) in front that belongs to it *)
WithPrefix(ws, r, target, cfg) ==
  LET tc == TagCfg(cfg, target.name)
      subs == SelectSeq(target.subs, LAMBDA s : s.name = tc.preSub)
      pre == IF tc.pre # 0 THEN <<tc.pre>>
             ELSE IF tc.preSub # "" /\ subs # <<>> THEN Last1(subs).v ELSE <<>>
      j == r[1] - Len(pre)
  IN IF pre # <<>> /\ j >= 1 /\ SubSeq(ws, j, r[1] - 1) = pre THEN <<j, r[2]>> ELSE r

(********************************** labelling **********************************)
Prefixed(cfg, k, name) == IF ~cfg.begin THEN Tag("", name) ELSE IF k = 1 THEN B(name) ELSE I(name)
LabelMain(doc, ps, name, cfg) ==
  FoldLeft(LAMBDA d, k :
             IF cfg.keep THEN SetMainOnly(d, ps[k][1], ps[k][2], Prefixed(cfg, k, name))
             ELSE SetMain(d, ps[k][1], ps[k][2], Prefixed(cfg, k, name)),
           doc, [k \in 1..Len(ps) |-> k])
RECURSIVE SubPlace(_, _, _, _)
SubPlace(doc, ps, v, from) ==   \* first occurrence without sub annotation
  LET r == Find(Words(doc, ps), v, from)
  IN IF r = NotFound THEN NotFound
     ELSE IF \A k \in r[1]..r[2] : At(doc, ps[k]).s = NoTag THEN r
     ELSE SubPlace(doc, ps, v, r[2] + 1)
LabelSubs(doc, ps, subs, cfg) ==
  FoldLeft(LAMBDA d, s :
             LET r == SubPlace(d, ps, s.v, 1)
             IN IF r = NotFound THEN d
                ELSE FoldLeft(LAMBDA e, k :
                                SetSub(e, ps[r[1] + k - 1][1], ps[r[1] + k - 1][2],
                                       Prefixed(cfg, k, s.name)),
                              d, [k \in 1..(r[2] - r[1] + 1) |-> k]),
           doc, subs)

(* state: d document, todo targets that were not found, cur text searched next,    *)
(* block current block; all: text of the whole document when this pass began       *)
MatchOne(st, target, cfg, all, subOnly) ==
  LET block == TagCfg(cfg, target.name).block
      runs1 == PendingRuns(st.d, st.cur, cfg.look)
      ps1 == Flat(runs1)
      r1 == FindTarget(Words(st.d, ps1), target, cfg)
      whole == r1 = NotFound /\ st.block # block
      runs2 == PendingRuns(st.d, all, 0)
      ps2 == Flat(runs2)
      r2 == FindTarget(Words(st.d, ps2), target, cfg)
      ps == IF whole THEN ps2 ELSE ps1
      r == IF whole THEN r2 ELSE r1
      holds(run) == \E k \in 1..Len(run) : run[k] = ps2[r2[1]]
      from == CHOOSE k \in 1..Len(runs2) : holds(runs2[k])
      st1 == IF whole /\ r2 # NotFound
             THEN [st EXCEPT !.cur = SubSeq(runs2, from, Len(runs2)), !.block = block] ELSE st
      r0 == WithPrefix(Words(st.d, ps), r, target, cfg)
      range == SubSeq(ps, r0[1], r0[2])
      d1 == IF subOnly THEN st.d ELSE LabelMain(st.d, range, target.name, cfg)
  IN IF r = NotFound THEN [st EXCEPT !.todo = Append(st.todo, target)]
     ELSE [st1 EXCEPT !.d = IF cfg.subs THEN LabelSubs(d1, range, target.subs, cfg) ELSE d1]
RECURSIVE Passes(_, _, _, _)
Passes(doc, targets, cfg, subOnly) ==
  LET all == LineSeqs(doc)
      st == FoldLeft(LAMBDA s, t : MatchOne(s, t, cfg, all, subOnly),
                     [d |-> doc, todo |-> <<>>, cur |-> all, block |-> ""], targets)
  IN IF targets = <<>> THEN doc
     ELSE IF Len(st.todo) = Len(targets) THEN st.d
     ELSE Passes(st.d, st.todo, cfg, subOnly)

(**************************** extending to whole lines **************************)
TagGroups(tags) ==
  FoldLeft(LAMBDA a, t : IF a # <<>> /\ Val(Last1(Last1(a))) = Val(t)
                         THEN [a EXCEPT ![Len(a)] = Append(Last1(a), t)] ELSE Append(a, <<t>>),
           <<>>, tags)
OneOccurrence(g) ==     \* as if labelled at once
  IF Prefix(g[1]) = "" THEN g ELSE [k \in 1..Len(g) |-> IF k = 1 THEN g[1] ELSE I(Val(g[1]))]
Repeat(t, n) == [k \in 1..n |-> t]
ExtendLine(tags, Merges(_), Extends(_)) ==
  LET g0 == TagGroups(tags)
      g == [k \in 1..Len(g0) |-> IF Val(g0[k][1]) = "" \/ ~Merges(Val(g0[k][1])) THEN g0[k]
                                 ELSE OneOccurrence(g0[k])]
      val(k) == Val(g[k][1])
      gap(k) == val(k) = ""
      inner(k) == k > 1 /\ k < Len(g)
      fills(k) == inner(k) /\ val(k - 1) = val(k + 1) /\ Merges(val(k - 1))
      toEnd(k) == k > 1 /\ k = Len(g) /\ Extends(val(k - 1)) /\ Len(g[k - 1]) > Len(g[k])
      toStart(k) == k = 1 /\ k < Len(g) /\ Extends(val(k + 1)) /\ Len(g[k + 1]) > Len(g[k])
      joined(k) == k > 1 /\ gap(k - 1) /\ (fills(k - 1) \/ toStart(k - 1))
      head(k) == IF joined(k) THEN ToInside(g[k][1]) ELSE g[k][1]
      tail(k) == IF Len(g[k]) = 1 THEN head(k) ELSE Last1(g[k])
      out(k) == IF ~gap(k) THEN <<head(k)>> \o Tail(g[k])
                ELSE IF fills(k) \/ toEnd(k) THEN Repeat(ToInside(tail(k - 1)), Len(g[k]))
                ELSE IF toStart(k)
                     THEN [h \in 1..Len(g[k]) |->
                             IF Prefix(g[k + 1][1]) = "" THEN g[k + 1][1]
                             ELSE IF h = 1 THEN B(val(k + 1)) ELSE I(val(k + 1))]
                ELSE g[k]
  IN Flat([k \in 1..Len(g) |-> out(k)])
ExtendLines(doc, cfg) ==
  FoldLeft(LAMBDA d, l :
    LET ps == SelectSeq([k \in 1..Len(doc[l]) |-> <<l, k>>], LAMBDA p : ~At(doc, p).sp)
        tags == ExtendLine([k \in 1..Len(ps) |-> At(d, ps[k]).t],
                           LAMBDA v : TagCfg(cfg, v).merge, LAMBDA v : TagCfg(cfg, v).ext)
    IN FoldLeft(LAMBDA e, k : IF tags[k] = NoTag THEN e ELSE SetMain(e, ps[k][1], ps[k][2], tags[k]),
                d, [k \in 1..Len(ps) |-> k]),
    doc, [l \in 1..Len(doc) |-> l])

Annotate(doc, targets, cfg) ==
  LET d == Passes(doc, targets, cfg, FALSE) IN IF cfg.extend THEN ExtendLines(d, cfg) ELSE d
AnnotateSubs(doc, targets, cfg) ==
  LET bare == MapTokens(doc, LAMBDA tok : IF cfg.keep THEN [tok EXCEPT !.t = NoTag]
                                          ELSE [tok EXCEPT !.t = NoTag, !.ps = NoTag])
      d == Passes(bare, targets, cfg, TRUE)
  IN [l \in 1..Len(doc) |-> [k \in 1..Len(doc[l]) |->
       [d[l][k] EXCEPT !.t = Main(doc[l][k])]]]

(******************* what it is for, independent of how it is done ***************)
Names(targets) == {targets[k].name : k \in 1..Len(targets)}
SubNames(targets) == UNION {{targets[k].subs[h].name : h \in 1..Len(targets[k].subs)} :
                            k \in 1..Len(targets)}
EachToken(doc, Op(_, _)) == \A l \in 1..Len(doc) : \A k \in 1..Len(doc[l]) : Op(l, k)
(* text that had a label keeps it; new labels are names of fields of the article *)
LabelsKept(doc, after) ==
  EachToken(doc, LAMBDA l, k : doc[l][k].t # NoTag => Val(after[l][k].t) = Val(doc[l][k].t))
LabelsOfArticle(doc, after, targets) ==
  EachToken(doc, LAMBDA l, k :
    (doc[l][k].t = NoTag /\ after[l][k].t # NoTag) =>
       (Val(after[l][k].t) \in Names(targets)
        \/ \E j \in 1..Len(doc[l]) : Val(doc[l][j].t) = Val(after[l][k].t)))
SubsOfArticle(doc, after, targets) ==
  EachToken(doc, LAMBDA l, k :
    after[l][k].s # doc[l][k].s =>
       (doc[l][k].s = NoTag /\ Val(after[l][k].s) \in SubNames(targets)))
(* without extension: what is newly labelled spells the field's value(s) *)
SpellsValues(doc, after, targets, cfg) ==
  LET ps == SolidPos(doc)
      new == SelectSeq(ps, LAMBDA p : At(doc, p).t = NoTag /\ At(after, p).t # NoTag)
      words(name) == UNION {UNION {Range1(targets[k].vals[h]) : h \in 1..Len(targets[k].vals)} :
                            k \in {j \in 1..Len(targets) : targets[j].name = name}}
                     \cup UNION {UNION {UNION {Range1(a[2][h]) : h \in 1..Len(a[2])}
                                  : a \in Range1(TagCfg(cfg, name).alts)} : x \in {1}}
                     \cup {TagCfg(cfg, name).pre}
                     \cup UNION {UNION {Range1(targets[k].subs[h].v)
                                        : h \in 1..Len(targets[k].subs)} : k \in 1..Len(targets)}
  IN \A q \in 1..Len(new) : At(doc, new[q]).w \in words(Val(At(after, new[q]).t))
(* a field whose value stands in the text is labelled there, in full, unless another  *)
(* field competes for its words (or the search is limited to less than the text)       *)
Alone(targets, k) ==
  \A h \in 1..Len(targets) : h # k =>
     /\ targets[h].name # targets[k].name
     /\ Range1(Flat(targets[k].vals)) \cap Range1(Flat(targets[h].vals)) = {}
AllFound(doc, after, targets, cfg) ==
  LET ps == Flat(LineSeqs(doc))
      labelled(name) == SelectSeq(ps, LAMBDA p : Val(At(after, p).t) = name)
      plain(name) == TagCfg(cfg, name).pre = 0 /\ TagCfg(cfg, name).preSub = ""
                     /\ TagCfg(cfg, name).alts = <<>>
  IN (/\ cfg.look = 0 \/ cfg.look >= Len(ps)
      /\ \A h \in 1..Len(targets) : ~targets[h].multi /\ plain(targets[h].name)) =>
     \A k \in 1..Len(targets) :
       (Alone(targets, k) /\ Find(Words(doc, ps), targets[k].vals[1], 1) # NotFound) =>
         Find(Words(doc, labelled(targets[k].name)), targets[k].vals[1], 1) # NotFound
=============================================================================
