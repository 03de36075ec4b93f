------------------------------ MODULE MCTeiDoc ------------------------------
(* All small documents: any tagging of up to MaxTok tokens over up to MaxLine    *)
(* lines is written, read back and written again.                                *)
EXTENDS TeiDoc, TLC
CONSTANTS MaxTok, MaxLine, WithDefault, Preserved

Names == <<"a", "b", "c", "d", "e">>
Mapping == IF WithDefault
           THEN << <<"", "note">>, <<"A", "p">>, <<"B", "d/q">>, <<"S", "p/s">>, <<"T", "p/t">> >>
           ELSE << <<"A", "p">>, <<"B", "d/q">>, <<"S", "p/s">>, <<"T", "p/t">> >>
Paths == [v \in {"", "A", "B", "S", "T"} |->
           CASE v = "" -> IF WithDefault THEN <<"note">> ELSE <<>>
             [] v = "A" -> <<"p">> [] v = "B" -> <<"d", "q">>
             [] v = "S" -> <<"p", "s">> [] v = "T" -> <<"p", "t">>]
MainTags == {NoTag, B("A"), I("A"), B("B"), I("B")}
SubTags == {NoTag, B("S"), I("S"), B("T")}

VARIABLES phase, doc, ev, ev2
vars == <<phase, doc, ev, ev2>>

Tok(n, sp, t, s) ==
  [x |-> IF sp THEN " " ELSE Names[n], sp |-> sp, w |-> "",
   t |-> IF Preserved THEN NoTag ELSE t, s |-> IF Preserved THEN NoTag ELSE s,
   pt |-> IF Preserved THEN t ELSE NoTag, ps |-> IF Preserved THEN s ELSE NoTag]

Init == phase = "edit" /\ doc = << <<>> >> /\ ev = <<>> /\ ev2 = <<>>
NTok == Len(Flat(doc))
AddToken == /\ phase = "edit" /\ NTok < MaxTok
            /\ \E t \in MainTags, s \in SubTags :
                 doc' = [doc EXCEPT ![Len(doc)] = Append(@, Tok(NTok + 1, FALSE, t, s))]
            /\ UNCHANGED <<phase, ev, ev2>>
AddSpace == /\ phase = "edit" /\ NTok < MaxTok
            /\ \E t \in {NoTag, B("A"), I("A")} :
                 doc' = [doc EXCEPT ![Len(doc)] = Append(@, Tok(NTok + 1, TRUE, t, NoTag))]
            /\ UNCHANGED <<phase, ev, ev2>>
AddLine == /\ phase = "edit" /\ Len(doc) < MaxLine /\ NTok < MaxTok
           /\ doc' = Append(doc, <<>>)
           /\ UNCHANGED <<phase, ev, ev2>>
Save == /\ phase = "edit" /\ phase' = "saved"
        /\ ev' = Write(doc, Paths) /\ UNCHANGED <<doc, ev2>>

(* events back to content items *)
Cls(x) == [k \in 1..Len(x) |-> IF SubSeq(x, k, k) = " " THEN "s" ELSE "l"]
Chars(x) == [k \in 1..Len(x) |-> SubSeq(x, k, k)]
ItemsOf(e) ==
  LET Step(a, x) ==   \* a: stack of <<name, items>>
        CASE x[1] = "o" -> Append(a, <<x[2], <<>>>>)
          [] x[1] = "c" -> LET top == Last1(a) up == a[Len(a) - 1]
                           IN Append(SubSeq(a, 1, Len(a) - 2),
                                <<up[1], Append(up[2], [k |-> "e", n |-> top[1], ch |-> top[2]])>>)
          [] x[1] = "lb" -> [a EXCEPT ![Len(a)][2] = Append(@, [k |-> "lb"])]
          [] OTHER -> [a EXCEPT ![Len(a)][2] =
                         Append(@, [k |-> "t", c |-> Chars(x[2]), cl |-> Cls(x[2])])]
      st == FoldLeft(Step, << <<"", <<>>>> >>, e)
  IN st[1][2]
Resave == /\ phase = "saved" /\ phase' = "resaved"
          /\ ev2' = Write(Load(ItemsOf(ev), Mapping, TRUE), Paths) /\ UNCHANGED <<doc, ev>>
Next == AddToken \/ AddSpace \/ AddLine \/ Save \/ Resave
Spec == Init /\ [][Next]_vars

Done == phase \in {"saved", "resaved"}
TextConserved == Done => TextOfEvents(ev) = TextOfDoc(doc)
LinesConserved == Done => LinesOfEvents(ev) = LinesOfDoc(doc)
ElementsRight == Done => InMappedElements(doc, ev, Paths)
BeginsRight == Done => BeginsNewElement(doc, ev, Paths)
ContinuesRight == Done => ContinuesElement(doc, ev, Paths)
Balanced == Done => LET o == Len(SelectSeq(ev, LAMBDA e : e[1] = "o"))
                        c == Len(SelectSeq(ev, LAMBDA e : e[1] = "c")) IN o = c
ResaveText == phase = "resaved" => TextOfEvents(ev2) = TextOfEvents(ev)
ResaveLines == phase = "resaved" => LinesOfEvents(ev2) = LinesOfEvents(ev)
(* reading back and saving again changes nothing *)
Idempotent == phase = "resaved" => Shape(ev2) = Shape(ev)
=============================================================================
