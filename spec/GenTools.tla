------------------------------- MODULE GenTools -------------------------------
(* The runs of MCTools, for the real tools.                                       *)
EXTENDS MCTools, Json, IOUtils
Docs == UNION {[1..n -> Pieces] : n \in 1..MaxPart}
Cases == SetToSeq({[items |-> Flat(d), opt |-> o] : d \in Docs, o \in Opts})
GInit == items = <<>> /\ opt = 0 /\ out = <<>>
GNext == /\ opt = 0 /\ opt' = 1 /\ UNCHANGED <<items, out>>
         /\ JsonSerialize(IOEnv.OUT, [field |-> Field, sub |-> SubField, words |-> Texts, cases |-> Cases])
=============================================================================
