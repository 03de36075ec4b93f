-------------------------------- MODULE GenRef --------------------------------
EXTENDS MCRef, Json, IOUtils
GInit == doc0 = <<>> /\ d = <<>> /\ e = 0 /\ step = 0
Cases == SetToSeq({[k \in 1..Len(ts) |-> [x |-> Texts[ts[k][1][1]].x, s |-> ts[k][1][2],
                                          m |-> ts[k][2]]] : ts \in TokSeqs})
GNext == /\ e = 0 /\ e' = 1 /\ UNCHANGED <<doc0, d, step>> /\ JsonSerialize(IOEnv.OUT, Cases)
=============================================================================
