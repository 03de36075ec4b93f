------------------------------- MODULE GenMatch -------------------------------
(* Every small document x scenario of the matching model (MCMatch), for replay     *)
(* into the real annotators; and every short line of labels for the extension.      *)
EXTENDS MCMatch, Json, IOUtils
CONSTANT What, MaxTags
LineTags == {NoTag, B("A"), I("A"), Tag("", "A"), B("B"), I("B")}
TagLines == UNION {[1..n -> LineTags] : n \in 1..MaxTags}
Cases == IF What = "docs"
         THEN SetToSeq({[ts |-> ts, t |-> Scenario(k).t, c |-> Scenario(k).c]
                        : ts \in TokSeqs, k \in Scenarios})
         ELSE SetToSeq(TagLines)
GInit == /\ phase = "gen" /\ doc0 = <<>> /\ goal = <<>> /\ targets = <<>> /\ cfg = <<>>
         /\ st = <<>> /\ rest = <<>> /\ all = <<>>
GNext == /\ phase = "gen" /\ phase' = "done" /\ JsonSerialize(IOEnv.OUT, Cases)
         /\ UNCHANGED <<doc0, goal, targets, cfg, st, rest, all>>
=============================================================================
