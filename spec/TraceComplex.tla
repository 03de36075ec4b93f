----------------------------- MODULE TraceComplex -----------------------------
EXTENDS Complex, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

Texts(doc) == [l \in 1..Len(doc) |-> [k \in 1..Len(doc[l]) |-> doc[l][k].x]]
Clauses(r) ==
  [text |-> Texts(r.after) = Texts(r.entry),
   kept |-> KeptExactly(r.entry, r.after),
   names |-> NewLabels(r.entry, r.after, r.targets),
   subnames |-> NewSubs(r.entry, r.after, r.targets),
   found |-> AllCertainFound(r.entry, r.after, r.targets, r.cfg),
   many |-> ManyFound(r.entry, r.after, r.targets, r.cfg),
   subs |-> SubsFound(r.entry, r.after, r.targets, r.cfg)]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}

JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
