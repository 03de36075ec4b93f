------------------------------ MODULE TraceMatch ------------------------------
(* Judges recorded executions of the matching annotators.                        *)
EXTENDS Matching, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

Plain(doc) == MapTokens(doc, LAMBDA tok : [x |-> tok.x, sp |-> tok.sp, t |-> tok.t, s |-> tok.s,
                                           pt |-> tok.pt, ps |-> tok.ps])
SameText(r) ==
  [l \in 1..Len(r.after) |-> [k \in 1..Len(r.after[l]) |-> r.after[l][k].x]]
  = [l \in 1..Len(r.entry) |-> [k \in 1..Len(r.entry[l]) |-> r.entry[l][k].x]]
Clauses(r) ==
  CASE r.kind = "match" ->
         [text |-> SameText(r),
          exact |-> Plain(r.after) = Plain(Annotate(r.entry, r.targets, r.cfg)),
          kept |-> LabelsKept(r.entry, r.after),
          names |-> LabelsOfArticle(r.entry, r.after, r.targets),
          subnames |-> SubsOfArticle(r.entry, r.after, r.targets),
          spells |-> r.cfg.extend \/ (\E k \in 1..Len(r.targets) : r.targets[k].multi)
                     \/ SpellsValues(r.entry, r.after, r.targets, r.cfg),
          found |-> AllFound(r.entry, r.after, r.targets, r.cfg)]
    [] r.kind = "subs" ->
         [text |-> SameText(r),
          exact |-> Plain(r.after) = Plain(AnnotateSubs(r.entry, r.targets, r.cfg)),
          mains |-> EachToken(r.entry, LAMBDA l, k : Main(r.after[l][k]) = Main(r.entry[l][k])),
          subnames |-> SubsOfArticle(r.entry, r.after, r.targets)]
    [] r.kind = "extend" ->
         [exact |-> r.out = ExtendLine(r.tags, LAMBDA v : Fn(r.merge, v, TRUE),
                                       LAMBDA v : Fn(r.ext, v, TRUE)),
          kept |-> Len(r.out) = Len(r.tags) /\
                   \A k \in 1..Len(r.tags) : r.tags[k] # NoTag => Val(r.out[k]) = Val(r.tags[k])]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}

JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
