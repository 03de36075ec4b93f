-------------------------------- MODULE Complex --------------------------------
(* What the complex matcher (MatchingAnnotator) guarantees. It searches line by    *)
(* line and is approximate, so the module says when a value has to be found (and   *)
(* labelled in full) and what may be labelled at all, not how.                     *)
(*                                                                                 *)
(* target [name, vals: values (one unless list), list, bond: stays close to earlier *)
(*         matches of its name, next: only together with the following target,      *)
(*         many: every occurrence, subs: sequence of [name, v]]                     *)
(* cfg    [begin: use prefixes, gap: lines between matches that belong together,     *)
(*         thr: tenths that have to be similar (0: default), len: length of words]    *)
EXTENDS Matching

LineWords(doc, l) == SelectSeq([k \in 1..Len(doc[l]) |-> <<l, k>>], LAMBDA p : ~At(doc, p).sp)
OpenOf(doc, l) == SelectSeq(LineWords(doc, l), LAMBDA p : At(doc, p).t = NoTag)
(* lines that have unlabelled text, in order; the matcher counts these *)
OpenLines(doc) == SelectSeq([l \in 1..Len(doc) |-> l], LAMBDA l : OpenOf(doc, l) # <<>>)
PosOf(ls, l) == CHOOSE n \in 1..Len(ls) : ls[n] = l

(* the places a value has to be found at: within a line, or as a number of whole    *)
(* lines; as sequences of positions                                                *)
(* d of a token: the characters of it that are damaged *)
Harm(doc, ps) == FoldLeft(LAMBDA a, p : a + At(doc, p).d, 0, ps)
Near2(doc, ps, cfg) ==     \* similar enough
  LET chars == Len(ps) * (cfg.len + 1) - 1
      h == Harm(doc, ps)
      thr == IF cfg.thr = 0 THEN 9 ELSE cfg.thr
  IN h = 0 \/ 10 * (chars - h) >= thr * (chars + h)
PlacesWithin(doc, v, ls, cfg) ==
  UNION {UNION {{SubSeq(run, j, j + Len(v) - 1) :
                   j \in {j2 \in 1..(Len(run) - Len(v) + 1) :
                          /\ SubSeq(Words(doc, run), j2, j2 + Len(v) - 1) = v
                          /\ Near2(doc, SubSeq(run, j2, j2 + Len(v) - 1), cfg)}}
                : run \in Range1(Runs(doc, LineWords(doc, ls[n])))} : n \in 1..Len(ls)}
PlacesLines(doc, v, ls) ==
  LET whole(a, b) == Flat([n \in 1..(b - a + 1) |-> LineWords(doc, ls[a + n - 1])])
      unlabelled(ps) == \A q \in 1..Len(ps) : At(doc, ps[q]).t = NoTag
  IN {whole(x[1], x[2]) : x \in {y \in (1..Len(ls)) \X (1..Len(ls)) :
        /\ y[1] < y[2] /\ Words(doc, whole(y[1], y[2])) = v /\ Harm(doc, whole(y[1], y[2])) = 0
        /\ unlabelled(whole(y[1], y[2]))}}
PlacesOf(doc, v, ls, cfg) == IF v = <<>> THEN {} ELSE PlacesWithin(doc, v, ls, cfg) \cup PlacesLines(doc, v, ls)

AllWords(t) == Range1(Flat(t.vals))
SubWords(t) == Range1(Flat([h \in 1..Len(t.subs) |-> t.subs[h].v]))
Distinct(s) == \A a, b \in 1..Len(s) : s[a] = s[b] => a = b
Spot(doc, w) == {p \in Range1(SolidPos(doc)) : At(doc, p).w = w}
(* no other target has its words and they stand nowhere else in the text *)
Lone(doc, targets, k, ls, cfg) ==
  /\ Distinct(Flat(targets[k].vals))
  /\ \A h \in 1..Len(targets) : h # k => AllWords(targets[h]) \cap AllWords(targets[k]) = {}
  /\ \A j \in 1..Len(targets[k].vals) :
       LET v == targets[k].vals[j]
           pl == PlacesOf(doc, v, ls, cfg)
           covered == UNION {Range1(p) : p \in pl}
       IN \A w \in Range1(v) : Spot(doc, w) \subseteq covered
LinesOfPlace(pl) == {pl[q][1] : q \in 1..Len(pl)}
OnePlace(doc, v, ls, cfg) == Cardinality(PlacesOf(doc, v, ls, cfg)) = 1
ThePlace(doc, v, ls, cfg) == CHOOSE pl \in PlacesOf(doc, v, ls, cfg) : TRUE
PosSet(ls, pl) == {PosOf(ls, l) : l \in LinesOfPlace(pl)}
CloseTo(S, T, gap) == gap = 0 \/ T = {} \/ \E a \in S, b \in T : a - b <= gap + 1 /\ b - a <= gap + 1

(* positions that the values of a list match at, one value after the other; sure:    *)
(* values whose place is certain                                                   *)
FoundVals(doc, t, ls, cfg, before) ==
  FoldLeft(LAMBDA a, v :
             IF ~OnePlace(doc, v, ls, cfg) THEN a
             ELSE LET pl == ThePlace(doc, v, ls, cfg)
                      (* lines are tried one after the other: the first one decides *)
                      first == {CHOOSE n \in PosSet(ls, pl) : \A m \in PosSet(ls, pl) : n <= m}
                      near(n) == CloseTo({n}, a.pos, cfg.gap)
                  IN IF \A n \in PosSet(ls, pl) : ~near(n) THEN a
                     ELSE IF \E n \in first : ~near(n) THEN [a EXCEPT !.sure = FALSE]
                     ELSE [a EXCEPT !.pos = a.pos \cup PosSet(ls, pl), !.got = a.got \cup {pl}],
           [pos |-> before, got |-> {}, sure |-> TRUE], t.vals)

(* what the targets 1..k of a document of certain places match *)
Certain(doc, targets, ls, cfg) ==
  \A k \in 1..Len(targets) :
    /\ Lone(doc, targets, k, ls, cfg)
    /\ \A j \in 1..Len(targets[k].vals) : Cardinality(PlacesOf(doc, targets[k].vals[j], ls, cfg)) <= 1
Matches(doc, targets, ls, cfg) ==
  FoldLeft(LAMBDA a, t :
             LET known == IF t.bond THEN Fn(a.bonds, t.name, {}) ELSE {}
                 f == FoundVals(doc, t, ls, cfg, known)
                 (* a list that has to stay together: one value alone does not count *)
                 enough == ~t.list \/ ~t.bond \/ t.name = "author"
                           \/ Cardinality(UNION {{pl} \X LinesOfPlace(pl) : pl \in f.got}) > 1
             IN [sure |-> a.sure /\ f.sure, bonds |-> IF t.bond THEN <<<<t.name, f.pos>>>> \o a.bonds ELSE a.bonds,
                 got |-> Append(a.got, IF enough THEN f.got ELSE {})],
           [bonds |-> <<>>, got |-> <<>>, sure |-> TRUE], targets)

Dist(S, T) ==
  LET lo(X) == CHOOSE n \in X : \A m \in X : n <= m
      hi(X) == CHOOSE n \in X : \A m \in X : n >= m
      abs(x) == IF x < 0 THEN -x ELSE x
  IN Min2(abs(lo(T) - hi(S)), abs(lo(S) - hi(T)))
PosOfGot(ls, got) == UNION {PosSet(ls, pl) : pl \in got}
(* next: labelled with the following match, if that is right after or before it      *)
Labelled(ls, targets, got, k) ==
  IF got[k] = {} THEN "no"
  ELSE IF ~targets[k].next THEN "yes"
  ELSE IF targets[k].many THEN "open"
  ELSE IF k = Len(targets) \/ got[k + 1] = {} THEN "no"
  ELSE IF Dist(PosOfGot(ls, got[k + 1]), PosOfGot(ls, got[k])) <= 1 THEN "yes"
  ELSE "open"

PLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
OccurrenceOk(after, pls, name, begin) ==
  LET all == UNION {Range1(pl) : pl \in pls}
      isFirst(p) == \A q \in all : ~PLess(q, p)
  IN \A p \in all : At(after, p).t = (IF ~begin THEN Tag("", name)
                                      ELSE IF isFirst(p) THEN B(name) ELSE I(name))
(*************************************** clauses *********************************)
KeptExactly(doc, after) ==
  EachToken(doc, LAMBDA l, k : doc[l][k].t # NoTag => after[l][k].t = doc[l][k].t)
NewLabels(doc, after, targets) ==
  EachToken(doc, LAMBDA l, k : after[l][k].t # doc[l][k].t =>
     /\ ~doc[l][k].sp
     /\ \E h \in 1..Len(targets) : /\ targets[h].name = Val(after[l][k].t)
                                  /\ doc[l][k].w \in AllWords(targets[h]))
NewSubs(doc, after, targets) ==
  EachToken(doc, LAMBDA l, k : after[l][k].s # doc[l][k].s =>
     /\ after[l][k].t # doc[l][k].t
     /\ \/ after[l][k].s = NoTag
        \/ \E h \in 1..Len(targets) : \E j \in 1..Len(targets[h].subs) :
             /\ targets[h].name = Val(after[l][k].t)
             /\ targets[h].subs[j].name = Val(after[l][k].s)
             /\ doc[l][k].w \in Range1(targets[h].subs[j].v))
AllCertainFound(doc, after, targets, cfg) ==
  LET ls == OpenLines(doc)
  IN Certain(doc, targets, ls, cfg) =>
     LET ms == Matches(doc, targets, ls, cfg)
         got == ms.got
     IN ms.sure => \A k \in 1..Len(targets) :
          CASE Labelled(ls, targets, got, k) = "yes" ->
                 OccurrenceOk(after, got[k], targets[k].name, cfg.begin)
            [] Labelled(ls, targets, got, k) = "no" ->
                 \A p \in Range1(SolidPos(doc)) :
                   At(doc, p).w \in AllWords(targets[k]) => At(after, p).t = At(doc, p).t
            [] OTHER -> TRUE
(* single values that stand in several lines *)
Spread(doc, pls, ls, targets) ==    \* with a line of other text between them
  LET other(n) == \E p \in Range1(OpenOf(doc, ls[n])) :
                    At(doc, p).w # 0 /\ \A h \in 1..Len(targets) : At(doc, p).w \notin AllWords(targets[h])
  IN \A a, b \in pls : a # b =>
       \A m \in PosSet(ls, a), n \in PosSet(ls, b) :
         \E q \in (Min2(m, n) + 1)..(Max2(m, n) - 1) : other(q)
(* one after the other, as long as the next is close to those before *)
Chain(pls, ls, gap) ==
  LET sorted == SortSeq(SetToSeq(pls), LAMBDA a, b : PLess(a[1], b[1]))
  IN FoldLeft(LAMBDA a, pl :
                IF \A n \in PosSet(ls, pl) : CloseTo({n}, a.pos, gap)
                THEN [a EXCEPT !.pos = a.pos \cup PosSet(ls, pl), !.got = a.got \cup {pl}]
                ELSE [a EXCEPT !.sure = a.sure /\ \A n \in PosSet(ls, pl) : ~CloseTo({n}, a.pos, gap)],
              [pos |-> {}, got |-> {}, sure |-> TRUE], sorted)
ManyFound(doc, after, targets, cfg) ==
  LET ls == OpenLines(doc)
  IN \A k \in 1..Len(targets) :
       LET t == targets[k]
           pls == PlacesOf(doc, t.vals[1], ls, cfg)
           done == {pl \in pls : OccurrenceOk(after, {pl}, t.name, cfg.begin)}
       IN (/\ ~t.list /\ ~t.bond /\ ~t.next /\ Lone(doc, targets, k, ls, cfg) /\ Spread(doc, pls, ls, targets)
           /\ pls # {})
          => IF t.many THEN LET r == Chain(pls, ls, cfg.gap) IN r.sure => done = r.got
             ELSE Cardinality(done) = 1
SubsFound(doc, after, targets, cfg) ==
  LET ls == OpenLines(doc)
  IN Certain(doc, targets, ls, cfg) =>
     LET ms == Matches(doc, targets, ls, cfg)
         got == ms.got
     IN ms.sure => \A k \in 1..Len(targets) :
          (~targets[k].list /\ got[k] # {} /\ Harm(doc, CHOOSE pl \in got[k] : TRUE) = 0 /\ Labelled(ls, targets, got, k) = "yes") =>
            LET ps == CHOOSE pl \in got[k] : TRUE
                subs == targets[k].subs
                apart == \A a, b \in 1..Len(subs) : a # b => Range1(subs[a].v) \cap Range1(subs[b].v) = {}
            IN apart => \A j \in 1..Len(subs) :
                 LET r == Find(Words(doc, ps), subs[j].v, 1)
                 IN r # NotFound => \A q \in r[1]..r[2] :
                      At(after, ps[q]).s = (IF ~cfg.begin THEN Tag("", subs[j].name)
                                            ELSE IF q = r[1] THEN B(subs[j].name) ELSE I(subs[j].name))
=============================================================================
