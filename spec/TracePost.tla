------------------------------ MODULE TracePost ------------------------------
(* Judges recorded executions of one post-processing step on one document.       *)
EXTENDS PostProc, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

Strip(doc) ==  \* without the derived attributes
  MapTokens(doc, LAMBDA tok : [x |-> tok.x, sp |-> tok.sp, t |-> tok.t, s |-> tok.s,
                               pt |-> tok.pt, ps |-> tok.ps])
SameText(r) == Strip(r.after) = Strip(r.entry)
               \/ [l \in 1..Len(r.after) |-> [k \in 1..Len(r.after[l]) |-> r.after[l][k].x]]
                  = [l \in 1..Len(r.entry) |-> [k \in 1..Len(r.entry[l]) |-> r.entry[l][k].x]]
SubsUntouched(r) ==
  \A l \in 1..Len(r.entry) : \A k \in 1..Len(r.entry[l]) : r.after[l][k].s = r.entry[l][k].s

Clauses(r) ==
  CASE r.kind = "replace" ->
         [exact |-> Strip(r.after) = Strip(ReplaceTags(r.entry, r.map)),
          text |-> SameText(r), subs |-> SubsUntouched(r),
          meaning |-> ReplacedAsListed(r.entry, r.after, r.map)]
    [] r.kind = "merge" ->
         [exact |-> Strip(r.after) = Strip(MergeGroups(r.entry, r.map, r.level)),
          text |-> SameText(r)]
    [] r.kind = "prev" ->
         [exact |-> Strip(r.after) = Strip(ExpandPrevious(r.entry, Range1(r.enabled))),
          text |-> SameText(r), subs |-> SubsUntouched(r),
          meaning |-> ExpandedAsNeighbour(r.entry, r.after, Range1(r.enabled), "after")]
    [] r.kind = "next" ->
         [exact |-> Strip(r.after) = Strip(ExpandFollowing(r.entry, Range1(r.enabled))),
          text |-> SameText(r), subs |-> SubsUntouched(r),
          meaning |-> ExpandedAsNeighbour(r.entry, r.after, Range1(r.enabled), "before")]
    [] r.kind = "remove" ->
         [exact |-> Strip(r.after) = Strip(RemoveUntagged(r.entry)),
          meaning |-> OnlyTaggedRemains(Strip(r.entry), Strip(r.after)),
          begins |-> BeginsRemain(r.entry, r.after)]
    [] r.kind = "lineno" ->
         [exact |-> Strip(r.after) = Strip(AnnotateLineNumbers(r.entry, r.cfg)),
          text |-> SameText(r), subs |-> SubsUntouched(r),
          meaning |-> LineNumbersSound(r.entry, r.after, r.cfg)]
    [] r.kind = "segment" ->
         [exact |-> Strip(r.after) = Strip(Segment(r.entry, r.cfg)),
          text |-> SameText(r), subs |-> SubsUntouched(r),
          whole |-> WholeLines(r.entry, r.after, r.cfg),
          complete |-> NoneUntagged(r.entry, r.after, r.cfg)]

Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}

JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
