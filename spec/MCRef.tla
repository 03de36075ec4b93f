--------------------------------- MODULE MCRef ---------------------------------
(* The reference post-processing as a state machine: reference by reference, one    *)
(* of its four steps at a time, on all small documents.                             *)
EXTENDS Reference, TLC

CONSTANTS MaxTok
VARIABLES doc0, d, e, step
vars == <<doc0, d, e, step>>

Cfg == [map |-> <<<<"Q", "P">>>>, merge |-> <<"A", "P">>, suffix |-> <<"A">>,
        prefix |-> <<"D", "N">>, words |-> <<<<"D", <<"d", "o", "i">>>>, <<"N", <<>>>>>>,
        etal |-> "E", etals |-> <<"A">>]
Texts == <<[x |-> "doi", cs |-> <<"d", "o", "i">>, cl |-> <<"a", "a", "a">>],
           [x |-> "ab", cs |-> <<"a", "b">>, cl |-> <<"a", "a">>],
           [x |-> ".", cs |-> <<".">>, cl |-> <<"p">>],
           [x |-> ":", cs |-> <<":">>, cl |-> <<"c">>],
           [x |-> "7", cs |-> <<"7">>, cl |-> <<"w">>]>>
(* token: text, sub label, main label *)
Kinds == {<<1, NoTag>>, <<2, NoTag>>, <<3, NoTag>>, <<4, NoTag>>, <<5, B("A")>>, <<5, I("A")>>,
          <<2, B("E")>>, <<5, B("D")>>, <<5, B("Q")>>, <<5, B("N")>>}
Mains == {I("R"), B("R")}
TokSeqs == UNION {{q \in [1..n -> Kinds \X Mains] : q[1][2] = B("R")} : n \in 1..MaxTok}
Token(q) == [x |-> Texts[q[1][1]].x, cs |-> Texts[q[1][1]].cs, cl |-> Texts[q[1][1]].cl, wn |-> 1,
             sp |-> FALSE, w |-> " ", t |-> q[2], s |-> q[1][2], pt |-> NoTag, ps |-> NoTag,
             n |-> -1, d |-> FALSE]
DocOf(ts) == <<[k \in 1..Len(ts) |-> Token(ts[k])]>>

Init == \E ts \in TokSeqs : doc0 = DocOf(ts) /\ d = doc0 /\ e = 1 /\ step = 1
ps == Entities(d)[e]
toks == [k \in 1..Len(ps) |-> At(d, ps[k])]
StepTags == CASE step = 1 -> EtalTags(SubsAt(d, ps, Cfg), Cfg)
              [] step = 2 -> SuffixTags(SubsAt(d, ps, Cfg), toks, Cfg)
              [] step = 3 -> PrefixTags(SubsAt(d, ps, Cfg), toks, Cfg)
              [] step = 4 -> MergeTags(SubsAt(d, ps, Cfg), Cfg)
Work == /\ e <= Len(Entities(d))
        /\ d' = PutSubs(d, ps, StepTags)
        /\ step' = IF step = 4 THEN 1 ELSE step + 1
        /\ e' = IF step = 4 THEN e + 1 ELSE e
        /\ UNCHANGED doc0
Done == e > Len(Entities(d)) /\ UNCHANGED vars
Next == Work \/ Done

RefKept == e > Len(Entities(d)) => PartsKept(doc0, d, Cfg)
Grow == PartsGrow(doc0, d, Cfg)
Whole == e > Len(Entities(d)) => PartsWhole(doc0, d, Cfg)
Same == e > Len(Entities(d)) => d = Tidy(doc0, Cfg)
NoneLost == Len(d[1]) = Len(doc0[1])
=============================================================================
