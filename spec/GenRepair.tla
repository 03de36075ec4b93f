------------------------------- MODULE GenRepair ------------------------------
(* Enumerates all damaged documents up to a length for replay into the code.     *)
EXTENDS Repair, TLC, Json, IOUtils
CONSTANTS MaxLen
Names == {"p", "q"}
Tokens == {<<"o", n>> : n \in Names} \cup {<<"c", n>> : n \in Names \cup {"r"}} \cup {<<"t", "x">>}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>}
           ELSE LET s == Seqs(n - 1)
                IN s \cup {Append(t, e) : t \in {u \in s : Len(u) = n - 1}, e \in Tokens}
Docs == {<< <<"o", "root">> >> \o s : s \in Seqs(MaxLen)}
Ends == {<<>>, << <<"c", "root">> >>}
VARIABLE done
GInit == done = FALSE
GNext == ~done /\ done' = TRUE
         /\ JsonSerialize(IOEnv.OUT, SetToSeq({d \o e : d \in Docs, e \in Ends}))
=============================================================================
