-------------------------------- MODULE Repair --------------------------------
(* Repairing training documents with missing or wrong end tags.                  *)
(* token/event  <<"o", name>> start tag, <<"c", name>> end tag, <<"t", text>>    *)
EXTENDS Sequences, SequencesExt, Naturals, FiniteSets

Top(st) == st[Len(st)]
Pop(a) == [out |-> Append(a.out, <<"c", Top(a.st)>>), st |-> SubSeq(a.st, 1, Len(a.st) - 1)]
OpenIn(st, n) == \E k \in 1..Len(st) : st[k] = n

RECURSIVE PopTo(_, _)
PopTo(a, n) == IF Top(a.st) = n THEN Pop(a) ELSE PopTo(Pop(a), n)
RECURSIVE PopAll(_)
PopAll(a) == IF a.st = <<>> THEN a ELSE PopAll(Pop(a))

Step(a, e) ==
  CASE e[1] = "o" -> [out |-> Append(a.out, e), st |-> Append(a.st, e[2])]
    [] e[1] = "t" -> [a EXCEPT !.out = Append(a.out, e)]
    [] e[1] = "c" ->
         IF a.st = <<>> THEN a                       \* nothing to close
         ELSE IF OpenIn(a.st, e[2]) THEN PopTo(a, e[2])
         ELSE IF Len(a.st) = 1 THEN a                \* the root is only closed by its own end tag
         ELSE Pop(a)                                 \* a wrong name closes the innermost element
Repair(tokens) == PopAll(FoldLeft(Step, [out |-> <<>>, st |-> <<>>], tokens)).out

(**************************** what a user relies on ***************************)
Depths(ev) ==
  FoldLeft(LAMBDA a, e :
      CASE e[1] = "o" -> [a EXCEPT !.st = Append(a.st, e[2]),
                                   !.roots = IF a.st = <<>> THEN a.roots + 1 ELSE a.roots]
        [] e[1] = "c" -> IF a.st # <<>> /\ Top(a.st) = e[2]
                         THEN [a EXCEPT !.st = SubSeq(a.st, 1, Len(a.st) - 1)]
                         ELSE [a EXCEPT !.ok = FALSE]
        [] OTHER -> IF a.st = <<>> THEN [a EXCEPT !.ok = FALSE] ELSE a,
    [st |-> <<>>, ok |-> TRUE, roots |-> 0], ev)
WellFormed(ev) == LET d == Depths(ev) IN d.ok /\ d.st = <<>> /\ d.roots = 1
Only(ev, kinds) == SelectSeq(ev, LAMBDA e : e[1] \in kinds)
SameContent(in, out) == Only(in, {"o", "t"}) = Only(out, {"o", "t"})
(* a damaged document is one root element with everything inside it *)
OneRoot(in) ==
  /\ in # <<>> /\ in[1][1] = "o"
  /\ \A k \in 2..Len(in) : in[k][2] = in[1][2] /\ in[k][1] # "t" => k = Len(in) /\ in[k][1] = "c"
=============================================================================
