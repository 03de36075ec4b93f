---------------------------- MODULE TraceDownload ----------------------------
EXTENDS Download, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

(* found: the files of the output folders, as [at, path, c] *)
Clauses(r) ==
  LET refused == Refused(r.docs, r.tgts, r.cfg)
      out == IF refused THEN <<>> ELSE Outputs(r.docs, r.tgts, r.cfg)
  IN [copied |-> DifferentNames(out) => ToSet(r.found) = ToSet(out),
      names |-> ToSet(Places(r.found)) = ToSet(Places(out)),
      reported |-> (r.failed = refused),
      sources |-> r.sources,
      elsewhere |-> r.elsewhere]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}
Min2(a, b) == IF a < b THEN a ELSE b
JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
