-------------------------------- MODULE Batch --------------------------------
(* State machine of processing a batch with several workers, crashes and resume. *)
EXTENDS BatchRules

CONSTANTS Files, Workers
Kinds == {"ok", "fail", "bad"}

VARIABLES kinds, cfg, out, failed,   \* files of the batch, options, result files
          part,      \* incomplete result files (under a name that is not a result's)
          temp,      \* private working copies of source files
          todo,      \* files not taken by a worker yet
          pc,        \* worker -> [f, s] the file it is working on and its next step
          errors,    \* files that failed to be processed
          status,    \* "running", "ok", "error", "crashed"
          runs, prior, priorFailed

vars == <<kinds, cfg, out, failed, part, temp, todo, pc, errors, status, runs, prior, priorFailed>>
Idle == [f |-> 0, s |-> "idle"]

Init ==
  /\ kinds \in [Files -> Kinds]
  /\ cfg \in [skip : BOOLEAN, resume : BOOLEAN, failedPath : BOOLEAN]
  /\ out \in [Files -> {"none", "pre"}]
  /\ failed = [f \in Files |-> "none"]
  /\ part = {} /\ temp = {} /\ errors = {}
  /\ prior = out /\ priorFailed = failed
  /\ todo = Todo(cfg, out)
  /\ pc = [w \in Workers |-> Idle]
  /\ status = "running" /\ runs = 1

Running == status = "running"
Step(w, s) == pc[w].s = s
File(w) == pc[w].f
At(w, s) == [pc EXCEPT ![w].s = s]
Same == UNCHANGED <<kinds, cfg, runs, prior, priorFailed>>

Take(w) ==
  /\ Running /\ Step(w, "idle") /\ todo # {}
  /\ \E f \in todo : pc' = [pc EXCEPT ![w] = [f |-> f, s |-> "copy"]] /\ todo' = todo \ {f}
  /\ Same /\ UNCHANGED <<out, failed, part, temp, errors, status>>
Copy(w) ==   \* a working copy of the source is made, for this file alone
  /\ Running /\ Step(w, "copy")
  /\ temp' = temp \cup {File(w)} /\ pc' = At(w, "annotate")
  /\ Same /\ UNCHANGED <<out, failed, part, todo, errors, status>>
Annotate(w) ==
  /\ Running /\ Step(w, "annotate")
  /\ pc' = At(w, CASE kinds[File(w)] = "bad" -> "error"
                   [] kinds[File(w)] = "fail" /\ ~cfg.failedPath -> "cleanup"
                   [] OTHER -> "begin")
  /\ Same /\ UNCHANGED <<out, failed, part, temp, todo, errors, status>>
Error(w) ==
  /\ Running /\ Step(w, "error")
  /\ errors' = errors \cup {File(w)} /\ pc' = At(w, "cleanup")
  /\ Same /\ UNCHANGED <<out, failed, part, temp, todo, status>>
Begin(w) ==
  /\ Running /\ Step(w, "begin")
  /\ part' = part \cup {File(w)} /\ pc' = At(w, "commit")
  /\ Same /\ UNCHANGED <<out, failed, temp, todo, errors, status>>
Commit(w) ==   \* the complete result appears under its name at once
  /\ Running /\ Step(w, "commit")
  /\ part' = part \ {File(w)}
  /\ IF kinds[File(w)] = "ok" THEN out' = [out EXCEPT ![File(w)] = "full"] /\ UNCHANGED failed
     ELSE failed' = [failed EXCEPT ![File(w)] = "full"] /\ UNCHANGED out
  /\ pc' = At(w, "cleanup")
  /\ Same /\ UNCHANGED <<temp, todo, errors, status>>
Cleanup(w) ==
  /\ Running /\ Step(w, "cleanup")
  /\ temp' = temp \ {File(w)} /\ pc' = [pc EXCEPT ![w] = Idle]
  /\ Same /\ UNCHANGED <<out, failed, part, todo, errors, status>>
Finish ==
  /\ Running /\ todo = {} /\ \A w \in Workers : Step(w, "idle")
  /\ status' = IF errors # {} /\ ~cfg.skip THEN "error" ELSE "ok"
  /\ Same /\ UNCHANGED <<out, failed, part, temp, todo, pc, errors>>
Crash ==
  /\ Running /\ runs = 1 /\ status' = "crashed"
  /\ Same /\ UNCHANGED <<out, failed, part, temp, todo, pc, errors>>
Resume ==
  /\ status = "crashed" /\ runs' = 2 /\ status' = "running"
  /\ cfg' = [cfg EXCEPT !.resume = TRUE]
  /\ prior' = out /\ priorFailed' = failed
  /\ todo' = Todo(cfg', out) /\ pc' = [w \in Workers |-> Idle] /\ errors' = {}
  /\ UNCHANGED <<kinds, out, failed, part, temp>>

Next ==
  \/ \E w \in Workers : Take(w) \/ Copy(w) \/ Annotate(w) \/ Error(w) \/ Begin(w) \/ Commit(w)
                        \/ Cleanup(w)
  \/ Finish \/ Crash \/ Resume
Spec == Init /\ [][Next]_vars /\ WF_vars(\E w \in Workers : Copy(w) \/ Annotate(w) \/ Error(w)
                    \/ Begin(w) \/ Commit(w) \/ Cleanup(w) \/ Take(w)) /\ WF_vars(Finish)
             /\ WF_vars(Resume)

(******************************** checked by TLC ******************************)
Ended == status \in {"ok", "error"}
EndsRight == Ended => FinishedRight(cfg, kinds, prior, priorFailed, out, failed, status)
CrashSafe == status = "crashed" => CrashedRight(kinds, prior, priorFailed, out, failed)
CopyInUse == \A w \in Workers : pc[w].s \in {"annotate", "error", "begin", "commit"}
                                 => File(w) \in temp
NothingLeft == (Ended /\ runs = 1) => temp = {} /\ part = {}
(* whatever was interrupted: after resuming, every file that can be processed    *)
(* has its result, and the outcome does not depend on when the crash came        *)
ResumeComplete == (Ended /\ runs = 2) =>
  \A f \in Files : kinds[f] = "ok" => out[f] \in {"full", "pre"}
NeverPartial == \A f \in Files : out[f] # "part" /\ failed[f] # "part"
OneWorkerPerFile == \A v, w \in Workers : (v # w /\ File(v) # 0) => File(v) # File(w)
EventuallyEnds == <>Ended
=============================================================================
