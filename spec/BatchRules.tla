-------------------------------- MODULE BatchRules --------------------------------
(* Processing a batch of files with several workers.                            *)
(*                                                                              *)
(* file kinds   "ok"    annotated and saved to the output path                  *)
(*              "fail"  annotated, but fails the quality checks                 *)
(*              "bad"   cannot be processed (an error occurs)                   *)
(* file states  "none" does not exist, "full" complete result of this file,     *)
(*              "pre" an earlier result, "part" anything else                   *)
(* cfg          [skip: errors are skipped, resume: files that have an output    *)
(*               are left alone, failedPath: failing documents are kept there]  *)
EXTENDS Integers, FiniteSets, Sequences

(******************** what a user relies on (declarative) ********************)
Todo(cfg, prior) == {f \in DOMAIN prior : ~cfg.resume \/ prior[f] = "none"}
ExpectedOut(cfg, kinds, prior) ==
  [f \in DOMAIN prior |->
     IF f \in Todo(cfg, prior) /\ kinds[f] = "ok" THEN "full" ELSE prior[f]]
ExpectedFailed(cfg, kinds, prior, priorFailed) ==
  [f \in DOMAIN prior |->
     IF f \in Todo(cfg, prior) /\ kinds[f] = "fail" /\ cfg.failedPath THEN "full"
     ELSE priorFailed[f]]
ExpectedStatus(cfg, kinds, prior) ==
  IF ~cfg.skip /\ \E f \in Todo(cfg, prior) : kinds[f] = "bad" THEN "error" ELSE "ok"

(* a run that ended by itself *)
FinishedRight(cfg, kinds, prior, priorFailed, out, failed, status) ==
  /\ out = ExpectedOut(cfg, kinds, prior)
  /\ failed = ExpectedFailed(cfg, kinds, prior, priorFailed)
  /\ status = ExpectedStatus(cfg, kinds, prior)
(* a run that was killed: every output is complete or as it was before *)
CrashedRight(kinds, prior, priorFailed, out, failed) ==
  /\ \A f \in DOMAIN prior : out[f] = prior[f] \/ (out[f] = "full" /\ kinds[f] = "ok")
  /\ \A f \in DOMAIN prior :
       failed[f] = priorFailed[f] \/ (failed[f] = "full" /\ kinds[f] = "fail")

=============================================================================
