------------------------------ MODULE MCDownload ------------------------------
(* Copying as a state machine: documents, then targets; workers take the next file  *)
(* and finish in any order.                                                         *)
EXTENDS Download, TLC
CONSTANTS MaxRows, Workers
VARIABLES docs, tgts, cfg, phase, next, busy, written
vars == <<docs, tgts, cfg, phase, next, busy, written>>

Entries(list) == {[p |-> p, exists |-> e, c |-> <<list, p>>] :
                  p \in {<<"a">>, <<"b", ".", "x">>, <<"d", "/", "a">>}, e \in BOOLEAN}
Lists(list) == UNION {[1..m -> Entries(list)] : m \in 1..MaxRows}
F(k, f) == [k |-> k, f |-> f, x |-> <<>>]
Patterns == {<<F("self", "filename")>>, <<F("self", "dir"), F("self", "filename")>>,
             <<F("index", ""), F("self", "ext")>>, <<F("document", "name"), F("target", "name")>>}
Init == /\ docs \in Lists("d") /\ tgts \in Lists("t") /\ phase = "doc" /\ next = 1 /\ busy = {}
        /\ written = <<>>
        /\ cfg \in {[limit |-> l, docAt |-> "D", tgtAt |-> "T", docPattern |-> p, tgtPattern |-> p] :
                    l \in {0, 1}, p \in Patterns}
N == Len(Pairs(docs, tgts, cfg.limit))
Job(n) == Outputs(docs, tgts, cfg)[IF phase = "doc" THEN n ELSE N + n]
Take == /\ ~Refused(docs, tgts, cfg) /\ phase # "end" /\ next <= N /\ Cardinality(busy) < Workers
        /\ busy' = busy \cup {next} /\ next' = next + 1 /\ UNCHANGED <<docs, tgts, cfg, phase, written>>
Finish(n) == /\ n \in busy /\ busy' = busy \ {n} /\ written' = Append(written, Job(n))
             /\ UNCHANGED <<docs, tgts, cfg, phase, next>>
Switch == /\ ~Refused(docs, tgts, cfg) /\ next = N + 1 /\ busy = {} /\ phase # "end"
          /\ phase' = IF phase = "doc" THEN "tgt" ELSE "end"
          /\ next' = 1 /\ UNCHANGED <<docs, tgts, cfg, busy, written>>
Done == (phase = "end" \/ Refused(docs, tgts, cfg)) /\ UNCHANGED vars
Next == Take \/ (\E n \in busy : Finish(n)) \/ Switch \/ Done

(* the last one written to a path is what is found there *)
Found == {written[k] : k \in {j \in 1..Len(written) : \A h \in (j + 1)..Len(written) :
                              Places(written)[h] # Places(written)[j]}}
Complete == phase = "end" => (DifferentNames(Outputs(docs, tgts, cfg)) => Found = ToSet(Outputs(docs, tgts, cfg)))
OwnContent == \A o \in ToSet(written) : (o.at = "D") = (o.c[1] = "d")
(* document and target of a pair are both there or (before the end) the target is not *)
Paired == phase = "end" => Len(written) = 2 * N
OnlyExisting == \A o \in ToSet(written) :
                  \E k \in 1..Len(docs) : (docs[k].exists /\ docs[k].c = o.c) \/
                                          (k <= Len(tgts) /\ tgts[k].exists /\ tgts[k].c = o.c)
=============================================================================
