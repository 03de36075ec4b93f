---- MODULE GenArticle ----
(* the shapes of articles *)
EXTENDS MCArticle, Json, IOUtils

GInit == parts = <<>> /\ k = 0 /\ open = <<>> /\ texts = <<>> /\ fresh = 0
GNext == /\ k = 0
         /\ k' = 1
         /\ UNCHANGED <<parts, open, texts, fresh>>
         /\ JsonSerialize(IOEnv.OUT, SetToSeq(Shapes))

====
