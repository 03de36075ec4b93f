------------------------------- MODULE MCTools -------------------------------
(* All small runs of one of the annotation tools: every document of up to MaxPart  *)
(* pieces (text, line breaks, existing elements) under every one of the options     *)
(* below, for an article with two values.                                           *)
EXTENDS Tools, TLC
CONSTANTS Tool, MaxPart

Chars(x) == [k \in 1..Len(x) |-> SubSeq(x, k, k)]
Cls(x) == [k \in 1..Len(x) |-> IF SubSeq(x, k, k) = " " THEN "s" ELSE "l"]
Txt(x) == [k |-> "t", c |-> Chars(x), cl |-> Cls(x)]
El(n, ch) == [k |-> "e", n |-> n, ch |-> ch]
Texts == <<"abc", "def", "ghi">>
Attrs == [x \in Range1(Texts) |->
           [w |-> CHOOSE k \in 1..3 : Texts[k] = x, n |-> -1, d |-> FALSE,
            cs |-> Chars(x), cl |-> <<"a", "a", "a">>]]

Field == CASE Tool = "header" -> "title" [] Tool = "segmentation" -> "reference"
           [] Tool = "fulltext" -> "section_paragraph"
           [] OTHER -> WholeField(Tool)
SubField == CASE Tool = "fulltext" -> "section_paragraph-xref-bib"
              [] OTHER -> Field \o "-label"
Targets == << [name |-> Field, vals |-> << <<1, 2>> >>, multi |-> FALSE,
               subs |-> << [name |-> SubField, v |-> <<1>>] >>],
              [name |-> "extra", vals |-> << <<3>> >>, multi |-> FALSE, subs |-> <<>>] >>
Whole == SplitPath(ElementOf(Tool, [fields |-> [how |-> "default", vals |-> <<>>],
                                    known |-> <<Field, "extra">>], Field), 1)
RECURSIVE Nest(_, _)
Nest(path, ch) == IF path = <<>> THEN ch ELSE <<El(path[1], Nest(SubSeq(path, 2, Len(path)), ch))>>
Pieces ==
  { <<Txt(" abc")>>, <<Txt(" def")>>, <<Txt(" ghi")>>, << [k |-> "lb"] >>,
    Nest(Whole, <<Txt(" ghi")>>), <<Txt(" ")>> \o Nest(Whole, <<Txt("abc def")>>),
    <<Txt(" ")>> \o Nest(Whole, <<Txt("def "), El("x", <<Txt("abc")>>), Txt(" ghi")>>),
    <<El("p", <<Txt(" abc def")>>)>> }

Opt(noKeep, always, segment, keepSub, drop, plus) ==
  [fields |-> [how |-> IF plus THEN "set" ELSE "default", vals |-> IF plus THEN <<Field, "extra">> ELSE <<>>],
   subFields |-> [how |-> "default", vals |-> <<>>],
   noKeep |-> noKeep, always |-> always, segment |-> segment, keepSub |-> keepSub,
   noKeepSub |-> <<>>, removeInvalid |-> drop, idno |-> FALSE, noExtend |-> FALSE,
   prev |-> FALSE, next |-> FALSE, noMergeRef |-> FALSE, noKeepFields |-> <<>>,
   lineNumbers |-> FALSE, look |-> 500, ln |-> [min |-> 10, gap |-> 10, ratio |-> <<1, 10>>],
   seg |-> [map |-> << <<"title", "front">>, <<"reference", "reference">> >>, frontMax |-> 2, headMax |-> 50],
   known |-> <<Field, "extra">>]
Drops == IF Tool \in {"reference", "affiliation"} THEN BOOLEAN ELSE {FALSE}
Keeps == IF Tool \in {"figure", "table", "affiliation"} THEN BOOLEAN ELSE {FALSE}
Opts == {Opt(n, a, s, k, d, p) : n \in BOOLEAN, a \in {<<>>, <<Field>>}, s \in IF Inner(Tool) THEN BOOLEAN ELSE {FALSE},
                                 k \in Keeps, d \in Drops, p \in BOOLEAN}

VARIABLES items, opt, out
vars == <<items, opt, out>>
Init == items = <<>> /\ opt \in Opts /\ out = <<>>
Add == /\ out = <<>> /\ Len(items) < MaxPart
       /\ \E p \in Pieces : items' = Append(items, p)
       /\ UNCHANGED <<opt, out>>
Content == Flat(items)
Run == /\ out = <<>> /\ items # <<>>
       /\ out' = << Output(Tool, opt, Targets, <<>>, 3, Content, Attrs) >>
       /\ UNCHANGED <<items, opt>>
Next == Add \/ Run
Spec == Init /\ [][Next]_vars

RECURSIVE Raw(_)
Raw(its) ==
  Flat([k \in 1..Len(its) |->
    CASE its[k].k = "t" -> [j \in 1..Len(its[k].c) |->
                             <<IF its[k].cl[j] = "s" THEN "s" ELSE "t", its[k].c[j]>>]
      [] its[k].k = "lb" -> << <<"lb">> >>
      [] OTHER -> << <<"o", its[k].n>> >> \o Raw(its[k].ch) \o << <<"c">> >>])
Events(its) == FoldLeft(Emit, [ev |-> <<>>], Raw(its)).ev
Done == out # <<>>
TextKept == Done /\ ~opt.removeInvalid => TextOfEvents(out[1]) = TextOfItems(Content)
Inside == Done => InnerKept(Tool, opt, Events(Content), out[1])
Known == Done => OnlyKnown(Tool, opt, Events(Content), out[1])
Wrapped == Done => AllWrapped(Tool, out[1])
Stays == Done => ElementsKept(Tool, opt, Events(Content), out[1])
=============================================================================
