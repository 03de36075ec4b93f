------------------------------ MODULE TraceBatch ------------------------------
(* Judges recorded runs over a batch of files. A record holds the kinds of the    *)
(* files, the options and the runs one after another with what was found in the   *)
(* file system after each.                                                        *)
EXTENDS BatchRules, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

N(r) == Len(r.kinds)
RunClauses(r, k) ==
  LET run == r.runs[k]
      prior == IF k = 1 THEN r.pre ELSE r.runs[k - 1].out
      priorFailed == IF k = 1 THEN [f \in 1..N(r) |-> "none"] ELSE r.runs[k - 1].failed
      cfg == [skip |-> r.skip, resume |-> run.resume, failedPath |-> r.failedPath]
      kinds == IF run.faulty THEN run.kinds ELSE r.kinds
  IN IF run.crashed
     THEN [safe |-> CrashedRight(kinds, prior, priorFailed, run.out, run.failed)]
     ELSE [outputs |-> run.out = ExpectedOut(cfg, kinds, prior),
           routed |-> run.failed = ExpectedFailed(cfg, kinds, prior, priorFailed),
           reported |-> run.status = ExpectedStatus(cfg, kinds, prior),
           clean |-> run.temps = 0 /\ (run.extra = 0 \/ k > 1 \/ run.faulty),
           sources |-> run.sourcesSame]
Alone(r) == \* what each file gives when it is processed alone is what was planned
  \A f \in 1..N(r) : r.alone[f] = r.kinds[f]
Complete(r) ==  \* after an interruption and resuming nothing is missing
  (Len(r.runs) > 1 /\ ~r.runs[Len(r.runs)].crashed) =>
     \A f \in 1..N(r) : r.kinds[f] = "ok" => r.runs[Len(r.runs)].out[f] \in {"full", "pre"}
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE UNION {LET c == RunClauses(r, k) IN {n \in DOMAIN c : ~c[n]} : k \in 1..Len(r.runs)}
       \cup (IF Alone(r) THEN {} ELSE {"alone"}) \cup (IF Complete(r) THEN {} ELSE {"complete"})
       \cup (IF r.limited THEN {} ELSE {"limit"})
Min2(a, b) == IF a < b THEN a ELSE b
JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
