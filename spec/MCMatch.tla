------------------------------- MODULE MCMatch -------------------------------
(* Matching as a state machine: one field value at a time, pass after pass, then  *)
(* the extension to whole lines; for all small documents, field values and         *)
(* settings. The step is the same operator (MatchOne) recorded executions of the    *)
(* real annotators are judged with.                                                 *)
EXTENDS Matching, TLC

CONSTANTS MaxTok, NWords, Gaps, EntryTags, Scenarios
VARIABLES doc0, goal, targets, cfg, st, rest, all, phase
vars == <<doc0, goal, targets, cfg, st, rest, all, phase>>

Tok(w, t) == [x |-> ToString(w), sp |-> FALSE, w |-> w, t |-> t, s |-> NoTag, pt |-> NoTag,
              ps |-> NoTag, n |-> -1, d |-> FALSE]
EntryTag(e) == IF e = "" THEN NoTag ELSE IF e = "A" THEN B("A") ELSE I("D")
Lines(ts) ==   \* tokens with their separation -> lines
  FoldLeft(LAMBDA a, t : IF t.g = "l" THEN Append(a, <<Tok(t.w, EntryTag(t.e))>>)
                         ELSE [a EXCEPT ![Len(a)] = Append(Last1(a), Tok(t.w, EntryTag(t.e)))],
           <<<<>>>>, ts)
TokChoices == [w : 1..NWords, g : Gaps, e : EntryTags]
TokSeqs == UNION {{d \in [1..n -> TokChoices] : d[1].g = "s"} : n \in 1..MaxTok}
One(name, v, subs) == [name |-> name, vals |-> <<v>>, multi |-> FALSE, subs |-> subs]
Sb(name, v) == [name |-> name, v |-> v]
Base == [look |-> 0, begin |-> TRUE, extend |-> FALSE, subs |-> TRUE, keep |-> FALSE, len |-> 5,
         tags |-> <<>>]
TC(block, merge, ext, pre) == [DefaultTagCfg EXCEPT !.block = block, !.merge = merge,
                               !.ext = ext, !.pre = pre]
Scenario(k) ==
  CASE k = 1 -> [t |-> <<One("A", <<1, 2>>, <<Sb("S", <<2>>)>>), One("B", <<2>>, <<>>)>>, c |-> Base]
    [] k = 2 -> [t |-> <<One("B", <<2>>, <<>>), One("A", <<1, 1>>, <<Sb("S", <<1>>), Sb("T", <<1>>)>>)>>,
                 c |-> [Base EXCEPT !.extend = TRUE]]
    [] k = 3 -> [t |-> <<One("A", <<1>>, <<>>), One("A", <<1>>, <<>>), One("B", <<2, 1>>, <<>>)>>,
                 c |-> [Base EXCEPT !.look = 1, !.extend = TRUE,
                        !.tags = <<<<"A", TC("x", FALSE, TRUE, 0)>>>>]]
    [] k = 4 -> [t |-> <<One("A", <<2>>, <<>>), One("B", <<1, 2>>, <<>>), One("A", <<1>>, <<>>)>>,
                 c |-> [Base EXCEPT !.look = 1,
                        !.tags = <<<<"A", TC("x", TRUE, TRUE, 0)>>, <<"B", TC("y", TRUE, FALSE, 2)>>>>]]
    [] k = 5 -> [t |-> <<[name |-> "A", vals |-> <<<<1>>, <<2, 2>>>>, multi |-> TRUE,
                          subs |-> <<Sb("S", <<2>>)>>], One("B", <<1>>, <<>>)>>,
                 c |-> [Base EXCEPT !.begin = FALSE, !.extend = TRUE, !.keep = TRUE]]
    [] k = 6 -> [t |-> <<One("A", <<1, 2, 1>>, <<Sb("S", <<1>>), Sb("T", <<1>>)>>)>>,
                 c |-> [Base EXCEPT !.tags =
                        <<<<"A", [DefaultTagCfg EXCEPT !.alts = <<<<<<1, 2, 1>>, <<<<2, 2>>, <<1>>>>>>>>,
                                                       !.preSub = "S"]>>>>]]

Start(d, ts) == [d |-> d, todo |-> <<>>, cur |-> LineSeqs(d), block |-> ""]
Init ==
  \E ts \in TokSeqs : \E k \in Scenarios :
    /\ doc0 = Lines(ts) /\ goal = Scenario(k).t /\ targets = goal /\ cfg = Scenario(k).c
    /\ st = Start(Lines(ts), targets) /\ rest = targets /\ all = LineSeqs(Lines(ts))
    /\ phase = "match"
Match ==
  /\ phase = "match" /\ rest # <<>>
  /\ st' = MatchOne(st, Head(rest), cfg, all, FALSE)
  /\ rest' = Tail(rest) /\ UNCHANGED <<doc0, goal, targets, cfg, all, phase>>
(* the targets of this pass *)
Again ==
  /\ phase = "match" /\ rest = <<>>
  /\ IF st.todo # <<>> /\ Len(st.todo) < Len(targets)
     THEN /\ targets' = st.todo /\ rest' = st.todo /\ all' = LineSeqs(st.d)
          /\ st' = Start(st.d, st.todo) /\ UNCHANGED <<doc0, goal, cfg, phase>>
     ELSE /\ phase' = "extend" /\ UNCHANGED <<doc0, goal, targets, cfg, st, rest, all>>
Extend ==
  /\ phase = "extend" /\ phase' = "done"
  /\ st' = IF cfg.extend THEN [st EXCEPT !.d = ExtendLines(st.d, cfg)] ELSE st
  /\ UNCHANGED <<doc0, goal, targets, cfg, rest, all>>
Done == phase = "done" /\ UNCHANGED vars
Next == Match \/ Again \/ Extend \/ Done

(* each step only ever adds labels *)
OnlyAdds == [][LabelsKept(st.d, st'.d)]_vars
NothingLost == LabelsKept(doc0, st.d)
Named == LabelsOfArticle(doc0, st.d, goal)
SubNamed == SubsOfArticle(doc0, st.d, goal)
Spelled == phase = "match" =>
             ((\A k \in 1..Len(goal) : ~goal[k].multi)
              => SpellsValues(doc0, st.d, goal, cfg))
Found == phase = "done" => AllFound(doc0, st.d, goal, cfg)
SameAsWhole == phase = "done" => st.d = Annotate(doc0, goal, cfg)
(* labels of one occurrence begin once: a new inside label has text of the same name before it *)
Begins == (phase = "match" /\ cfg.begin) =>
  LET ps == SolidPos(doc0)
  IN \A q \in 1..Len(ps) :
       (At(doc0, ps[q]).t = NoTag /\ Prefix(At(st.d, ps[q]).t) = "i") =>
          \E h \in 1..(q - 1) : Val(At(st.d, ps[h]).t) = Val(At(st.d, ps[q]).t)
=============================================================================
