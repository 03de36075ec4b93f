------------------------------ MODULE TraceCheck ------------------------------
EXTENDS Checks, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i
Clauses(r) == [verdict |-> r.verdict \in Verdicts(r.doc, r.targets, r.asked),
               untouched |-> r.same]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}
JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
