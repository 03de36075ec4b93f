------------------------------ MODULE TraceRepair -----------------------------
(* Judges recorded repairs of damaged documents.                                 *)
EXTENDS Repair, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i
(* adjacent texts are one text *)
Joined(ev) ==
  FoldLeft(LAMBDA a, e : IF e[1] = "t" /\ a # <<>> /\ a[Len(a)][1] = "t"
                         THEN [a EXCEPT ![Len(a)] = <<"t", a[Len(a)][2] \o e[2]>>]
                         ELSE Append(a, e), <<>>, ev)
Texts(ev) == FoldLeft(LAMBDA a, e : IF e[1] = "t" THEN a \o e[2] ELSE a, "", ev)
(* the name in a token is the name and attributes, the name alone identifies the end tag *)
Clauses(r) ==
  [wellformed |-> r.parsed,
   opens |-> r.parsed => Only(r.out, {"o"}) = Only(r.in, {"o"}),
   attributes |-> r.parsed => r.outAttrs = r.inAttrs,
   text |-> r.parsed => Texts(r.out) = Texts(r.in),
   exact |-> r.parsed => Joined(r.out) = Joined(Repair(r.in)),
   unchanged |-> (WellFormed(r.in) /\ ~r.odd) => r.same,
   idempotent |-> r.again]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}
Min2(a, b) == IF a < b THEN a ELSE b
JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
