------------------------------- MODULE MCPost -------------------------------
(* Post processing as a state machine: any small document, then any steps in any  *)
(* order (the tools choose which and in which order). Every step does what it is   *)
(* for whatever the steps before it left behind.                                   *)
EXTENDS PostProc, TLC
CONSTANTS MaxTok, MaxLine, MaxStep, Steps, Numbers

VARIABLES phase, doc, before, last, n
vars == <<phase, doc, before, last, n>>

Pairs == << <<"A", "B">>, <<"C", "">> >>
Groups == << <<"A", "G">> >>
SubGroups == << <<"S", "H">> >>
Enabled == {"A", "G"}
LineCfg == [min |-> 2, gap |-> 1, ratio |-> <<1, 2>>, tag |-> "line"]
SegCfg(preserve) == [map |-> << <<"A", "front">>, <<"B", "reference">>, <<"reference", "reference">> >>,
                     frontMax |-> 2, headMax |-> 3, noMergeRef |-> FALSE, preserve |-> preserve]

Kinds == IF Numbers = {} THEN {<<NoTag, NoTag, NoTag>>, <<B("A"), NoTag, NoTag>>, <<I("A"), B("S"), NoTag>>,
                               <<I("B"), NoTag, NoTag>>, <<NoTag, NoTag, B("C")>>, <<NoTag, NoTag, I("A")>>}
         ELSE {<<NoTag, NoTag, NoTag>>, <<I("A"), NoTag, NoTag>>, <<NoTag, NoTag, I("page")>>}
Words == {[x |-> "w", n |-> -1, d |-> FALSE], [x |-> "v", n |-> -1, d |-> FALSE]}
Nums == {[x |-> ToString(k), n |-> k, d |-> TRUE] : k \in Numbers}
Tok(w, k, sp) == [x |-> w.x, sp |-> sp, w |-> "", t |-> k[1], s |-> k[2], pt |-> k[3], ps |-> NoTag,
                  n |-> w.n, d |-> w.d]

Init == phase = "edit" /\ doc = << <<>> >> /\ before = <<>> /\ last = "" /\ n = 0
NTok == Len(Flat(doc))
AddToken == /\ phase = "edit" /\ NTok < MaxTok
            /\ \E w \in (IF Numbers = {} THEN {[x |-> "w", n |-> -1, d |-> FALSE]} ELSE Words \cup Nums), k \in Kinds :
                 doc' = [doc EXCEPT ![Len(doc)] = Append(@, Tok(w, k, FALSE))]
            /\ UNCHANGED <<phase, before, last, n>>
AddSpace == /\ phase = "edit" /\ NTok < MaxTok /\ Numbers = {}
            /\ \E t \in {NoTag, B("A")} :
                 doc' = [doc EXCEPT ![Len(doc)] =
                           Append(@, Tok([x |-> " ", n |-> -1, d |-> FALSE], <<t, NoTag, NoTag>>, TRUE))]
            /\ UNCHANGED <<phase, before, last, n>>
AddLine == /\ phase = "edit" /\ Len(doc) < MaxLine /\ NTok < MaxTok
           /\ doc' = Append(doc, <<>>)
           /\ UNCHANGED <<phase, before, last, n>>
Do(step, d) ==
  CASE step = "replace" -> ReplaceTags(d, Pairs)
    [] step = "merge" -> MergeGroups(d, Groups, 0)
    [] step = "submerge" -> MergeGroups(d, SubGroups, 2)
    [] step = "prev" -> ExpandPrevious(d, Enabled)
    [] step = "next" -> ExpandFollowing(d, Enabled)
    [] step = "remove" -> RemoveUntagged(d)
    [] step = "lineno" -> AnnotateLineNumbers(d, LineCfg)
    [] step = "segment" -> Segment(d, SegCfg(FALSE))
    [] step = "segment-kept" -> Segment(d, SegCfg(TRUE))
Process == /\ n < MaxStep /\ NTok > 0
           /\ \E s \in Steps : last' = s /\ doc' = Do(s, doc)
           /\ before' = doc /\ phase' = "done" /\ n' = n + 1
Next == AddToken \/ AddSpace \/ AddLine \/ Process
Spec == Init /\ [][Next]_vars

Words1(d) == [l \in 1..Len(d) |-> [k \in 1..Len(d[l]) |-> d[l][k].x]]
Subs1(d) == [l \in 1..Len(d) |-> [k \in 1..Len(d[l]) |-> d[l][k].s]]
TextKept == (n > 0 /\ last # "remove") => Words1(doc) = Words1(before)
SubsKept == (n > 0 /\ last \notin {"remove", "submerge"}) => Subs1(doc) = Subs1(before)
Replaced == last = "replace" => ReplacedAsListed(before, doc, Pairs)
ExpandedPrev == last = "prev" => ExpandedAsNeighbour(before, doc, Enabled, "after")
ExpandedNext == last = "next" => ExpandedAsNeighbour(before, doc, Enabled, "before")
(* grouping only ever tags text without annotation of that level *)
Grouped == last \in {"merge", "submerge"} =>
  \A l \in 1..Len(before) : \A k \in 1..Len(before[l]) :
    LET lev == IF last = "merge" THEN 0 ELSE 2
        g == IF lev = 0 THEN "G" ELSE "H"
    IN IF GroupTag(before[l][k], lev) # NoTag \/ before[l][k].sp \/ (lev = 2 /\ Main(before[l][k]) = NoTag)
       THEN doc[l][k] = before[l][k]
       ELSE GroupTag(doc[l][k], lev) \in {NoTag, I(g)}
Removed == last = "remove" => OnlyTaggedRemains(before, doc) /\ BeginsRemain(before, doc)
Numbered == last = "lineno" => LineNumbersSound(before, doc, LineCfg)
Segmented == last \in {"segment", "segment-kept"} =>
  LET cfg == SegCfg(last = "segment-kept")
  IN WholeLines(before, doc, cfg) /\ NoneUntagged(before, doc, cfg)
(* doing it once more changes nothing *)
Settled == (n > 0 /\ last \in {"prev", "next", "merge", "submerge", "remove"}) => Do(last, doc) = doc
=============================================================================
