------------------------------- MODULE TraceRef -------------------------------
(* Judges recorded executions of the reference post-processing.                   *)
EXTENDS Reference, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

Strip(doc) == MapTokens(doc, LAMBDA tok : [x |-> tok.x, sp |-> tok.sp, t |-> tok.t, s |-> tok.s,
                                           pt |-> tok.pt, ps |-> tok.ps])
Rest(doc) == MapTokens(doc, LAMBDA tok : [x |-> tok.x, sp |-> tok.sp, t |-> tok.t, pt |-> tok.pt])
SubLabels(doc) == [k \in 1..Len(SolidPos(doc)) |-> SubVal(doc, SolidPos(doc)[k])]
Clauses(r) ==
  CASE r.kind = "tidy" ->
         [exact |-> Strip(r.after) = Strip(Tidy(r.entry, r.cfg)),
          rest |-> Rest(r.after) = Rest(r.entry),
          kept |-> PartsKept(r.entry, r.after, r.cfg),
          grow |-> PartsGrow(r.entry, r.after, r.cfg),
          whole |-> PartsWhole(r.entry, r.after, r.cfg)]
    [] r.kind = "cli" ->     \* only which part every token ended up in, and where parts begin
         LET want == Tidy(r.entry, r.cfg)
             ps == SolidPos(want)
             shown(v) == IF v \in Range1(r.shown) THEN v ELSE ""
         IN [parts |-> r.parts = [k \in 1..Len(ps) |-> shown(SubVal(want, ps[k]))],
             begins |-> \A k \in 2..Len(ps) :
               (r.parts[k] # "" /\ r.parts[k] = r.parts[k - 1]
                /\ Prefix(At(want, ps[k]).s) = "b") <=> (r.parts[k] # "" /\ r.parts[k] = r.parts[k - 1]
                                                         /\ r.begins[k])]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}

JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
