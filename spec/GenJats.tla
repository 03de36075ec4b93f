-------------------------------- MODULE GenJats --------------------------------
EXTENDS MCJats, Json, IOUtils
GInit == ref0 = <<>> /\ ref = <<>> /\ n = 0
Cases == SetToSeq({[mixed |-> mx, items |-> its] : its \in Contents, mx \in {TRUE}}
                  \cup {[mixed |-> FALSE, items |-> its] : its \in [1..1 -> Catalogue]})
GNext == n = 0 /\ n' = 1 /\ UNCHANGED <<ref0, ref>> /\ JsonSerialize(IOEnv.OUT, Cases)
=============================================================================
