------------------------------- MODULE MCRepair -------------------------------
(* All damaged documents up to a length, built token by token.                   *)
EXTENDS Repair
CONSTANTS MaxLen
VARIABLE toks
Names == {"p", "q"}
Tokens == {<<"o", n>> : n \in Names} \cup {<<"c", n>> : n \in Names \cup {"r"}} \cup {<<"t", "x">>}
Init == toks = << <<"o", "root">> >>
Next == /\ Len(toks) < MaxLen /\ toks[Len(toks)] # <<"c", "root">>
        /\ \E e \in Tokens \cup {<<"c", "root">>} : toks' = Append(toks, e)
AlwaysWellFormed == WellFormed(Repair(toks))
ContentKept == SameContent(toks, Repair(toks))
ValidUnchanged == WellFormed(toks) => Repair(toks) = toks
Idempotent == Repair(Repair(toks)) = Repair(toks)
IsOneRoot == OneRoot(toks)
=============================================================================
