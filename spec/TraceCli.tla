------------------------------- MODULE TraceCli -------------------------------
(* Judges runs of the command line tools on one training document: what the file   *)
(* contains before and after.                                                      *)
EXTENDS TeiDoc, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

Clauses(r) ==
  [saved |-> r.error = "" /\ r.saved,
   text |-> TextOfEvents(r.out) = TextOfEvents(r.src),
   alltext |-> r.srcText = r.outText,
   outer |-> r.outer0 = r.outer1,
   lines |-> LinesOfEvents(r.out) = LinesOfEvents(r.src),
   untouched |-> r.sourceUntouched,
   again |-> r.again,
   stable |-> r.stable => Annotations(r.out2) = Annotations(r.out)]

Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE IF r.error # "" \/ ~r.saved THEN {"saved"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}

JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
