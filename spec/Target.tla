-------------------------------- MODULE Target --------------------------------
(* What a mapping asks for: the values of every field in an article.              *)
(*                                                                                *)
(* An article is a sequence of nodes in document order; node 1 is the root.       *)
(*   tag   name of the element, par  parent (0: none), typ  value of its `type`,  *)
(*   com   it is a comment or processing instruction (then text is its content)   *)
(*   text, tail  characters in front of its first child, and behind it            *)
(*                                                                                *)
(* A path is a sequence of steps [ax, name, pred]: ax "c" child, "d" descendant.  *)
(* An alternative is a set of paths (written p|q, in document order); a selector  *)
(* is a sequence of alternatives (one per line of the configuration).             *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Blank(c) == c \in {" ", "\n", "\t", "\r"}
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r",
            "s", "t", "u", "v", "w", "x", "y", "z", "eacute", "beta", "low"}
IsDigit(c) == \E k \in 1..10 : Digits[k] = c
Wordy(c) == c \in Letters \/ IsDigit(c)

Concat(ss) == FoldSeq(LAMBDA x, acc : acc \o x, <<>>, ss)
(* leading, trailing blanks away and every run of blanks one blank *)
Norm(s) ==
  LET r == FoldSeq(LAMBDA c, acc :
             IF ~Blank(c) THEN Append(acc, c)
             ELSE IF acc = <<>> \/ acc[Len(acc)] = " " THEN acc
             ELSE Append(acc, " "), <<>>, s)
  IN IF r # <<>> /\ r[Len(r)] = " " THEN SubSeq(r, 1, Len(r) - 1) ELSE r
IsBlankText(s) == Norm(s) = <<>>

--------------------------------------------------------------------------------
(* trees *)
RECURSIVE Below(_, _, _)
Below(t, m, n) == t[m].par # 0 /\ (t[m].par = n \/ Below(t, t[m].par, n))
Kids(t, n) == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : t[k].par = n)
Fits(nd, st) == /\ ~nd.com
                /\ (st.name = "*" \/ nd.tag = st.name)
                /\ CASE st.pred = "" -> TRUE
                     [] st.pred = "none" -> nd.typ = ""
                     [] st.pred = "not-x" -> nd.typ # "x"
                     [] OTHER -> nd.typ = st.pred
RECURSIVE Reach(_, _, _)
Reach(t, from, path) ==
  IF path = <<>> THEN from
  ELSE Reach(t, {m \in 1..Len(t) : /\ Fits(t[m], path[1])
                                   /\ \E n \in from : IF path[1].ax = "c" THEN t[m].par = n
                                                      ELSE Below(t, m, n)}, Tail(path))
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
PickSet(t, n, alt) == UNION {Reach(t, {n}, alt[k]) : k \in 1..Len(alt)}
Pick(t, n, alt) == InOrder(PickSet(t, n, alt))
PickAll(t, n, sel) == Concat([k \in 1..Len(sel) |-> Pick(t, n, sel[k])])
PickAllSet(t, n, sel) == UNION {PickSet(t, n, sel[k]) : k \in 1..Len(sel)}

(* the pieces of text in a node, without comments and without the nodes in out *)
RECURSIVE Pieces(_, _, _)
Pieces(t, n, out) ==
  <<t[n].text>> \o Concat([k \in 1..Len(Kids(t, n)) |->
    LET c == Kids(t, n)[k]
    IN (IF t[c].com \/ c \in out THEN <<>> ELSE Pieces(t, c, out)) \o <<t[c].tail>>])
Plain(t, n, out) == Norm(Concat(Pieces(t, n, out)))
(* text of neighbouring elements does not grow together to one word *)
Spaced(t, n, out) ==
  Norm(FoldSeq(LAMBDA x, acc : IF x = <<>> THEN acc
                               ELSE IF acc # <<>> /\ Wordy(acc[Len(acc)]) /\ Wordy(x[1])
                               THEN acc \o <<" ">> \o x ELSE acc \o x,
               <<>>, Pieces(t, n, out)))

(* text that is not within a leaf element *)
RECURSIVE HasLoose(_, _)
HasLoose(t, n) == \/ ~IsBlankText(t[n].text)
                  \/ \E c \in 1..Len(t) : /\ t[c].par = n
                       /\ \/ ~IsBlankText(t[c].tail)
                          \/ ~t[c].com /\ Kids(t, c) # <<>> /\ HasLoose(t, c)

--------------------------------------------------------------------------------
(* values from the children of the selected element *)
Filled(ss) == SelectSeq(ss, LAMBDA s : s # <<>>)
(* without the nodes that are the parent of another one of them *)
Lowest(t, ns) == SelectSeq(ns, LAMBDA m : ~\E k \in 1..Len(ns) : t[ns[k]].par = m)
SourceNodes(t, n, src) == IF src.isV THEN <<>> ELSE Lowest(t, Pick(t, n, src.alt))
SourceText(t, n, src) ==
  IF src.isV THEN src.val
  ELSE LET ns == SourceNodes(t, n, src)
       IN Concat([k \in 1..Len(ns) |-> (IF k = 1 THEN <<>> ELSE <<" ">>) \o Plain(t, ns[k], {})])
Complete(t, n, srcs) == \A k \in 1..Len(srcs) : srcs[k].isV \/ SourceNodes(t, n, srcs[k]) # <<>>
UsedBy(t, n, srcs) == UNION {ToSet(SourceNodes(t, n, srcs[k])) : k \in 1..Len(srcs)}
Joined(t, n, srcs) == Norm(Concat([k \in 1..Len(srcs) |-> SourceText(t, n, srcs[k])]))

AllDigits(s) == s # <<>> /\ \A k \in 1..Len(s) : IsDigit(s[k])
DigitVal(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1
ToInt(s) == FoldSeq(LAMBDA c, acc : acc * 10 + DigitVal(c), 0, s)
RECURSIVE ToChars(_)
ToChars(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE ToChars(n \div 10) \o <<Digits[(n % 10) + 1]>>
RangeOk(t, n, g) == /\ Complete(t, n, <<g.min, g.max>>)
                    /\ AllDigits(Norm(SourceText(t, n, g.min)))
                    /\ AllDigits(Norm(SourceText(t, n, g.max)))
RangeVals(t, n, g) ==
  LET a == ToInt(Norm(SourceText(t, n, g.min)))
      b == ToInt(Norm(SourceText(t, n, g.max)))
  IN IF b < a THEN <<>> ELSE [k \in 1..(b - a + 1) |-> ToChars(a + k - 1)]

FromChildren(t, n, f) ==
  LET cs == SelectSeq(f.concat, LAMBDA srcs : Complete(t, n, srcs))
      gs == SelectSeq(f.range, LAMBDA g : RangeOk(t, n, g))
      used == UNION {UsedBy(t, n, cs[k]) : k \in 1..Len(cs)}
              \cup UNION {UsedBy(t, n, <<gs[k].min, gs[k].max>>) : k \in 1..Len(gs)}
      other == SelectSeq(PickAll(t, n, f.children), LAMBDA m : m \notin used)
      low == Lowest(t, other)
      high == SelectSeq(other, LAMBDA m : \A k \in 1..Len(low) : low[k] # m)
      own(m) == Filled(<<Norm(t[m].text)>>
                       \o [k \in 1..Len(Kids(t, m)) |-> Norm(t[Kids(t, m)[k]].tail)])
      vals == Filled([k \in 1..Len(low) |-> Plain(t, low[k], {})])
              \o Filled([k \in 1..Len(cs) |-> Joined(t, n, cs[k])])
              \o Concat([k \in 1..Len(gs) |-> IF gs[k].alone THEN <<>> ELSE RangeVals(t, n, gs[k])])
              \o Concat([k \in 1..Len(high) |-> own(high[k])])
      left == Plain(t, n, ToSet(other) \cup used)
  IN [vals |-> IF f.unmatched /\ left # <<>> /\ left \notin ToSet(vals) THEN Append(vals, left) ELSE vals,
      alone |-> Concat([k \in 1..Len(gs) |-> IF gs[k].alone THEN RangeVals(t, n, gs[k]) ELSE <<>>])]

--------------------------------------------------------------------------------
(* patterns: "word" keeps the first word of a value that begins with one;         *)
(* "num" takes the numbers out of a value                                         *)
FirstWord(s) ==
  IF s = <<>> \/ ~Wordy(s[1]) THEN s
  ELSE SubSeq(s, 1, CHOOSE k \in 1..Len(s) : (\A j \in 1..k : Wordy(s[j]))
                                             /\ (k = Len(s) \/ ~Wordy(s[k + 1])))
Keep(f, s) == IF f.regex = "word" THEN FirstWord(s) ELSE s
(* the numbers in a text: runs of digits with no other word character next to them *)
NumSpans(s) ==
  {ab \in (1..Len(s)) \X (1..Len(s)) :
     /\ ab[1] <= ab[2]
     /\ \A j \in ab[1]..ab[2] : IsDigit(s[j])
     /\ ab[1] = 1 \/ ~Wordy(s[ab[1] - 1])
     /\ ab[2] = Len(s) \/ ~Wordy(s[ab[2] + 1])}
Split(s) ==
  LET sp == SetToSortSeq(NumSpans(s), LAMBDA a, b : a[1] < b[1])
      n == Len(sp)
      from(k) == IF k = 1 THEN 1 ELSE sp[k - 1][2] + 2      \* one character separates
      parts == Filled(Concat([k \in 1..n |->
                 (IF from(k) < sp[k][1] THEN <<Norm(SubSeq(s, from(k), sp[k][1] - 1))>> ELSE <<>>)
                 \o <<SubSeq(s, sp[k][1], sp[k][2])>>])
               \o (IF from(n + 1) <= Len(s) THEN <<Norm(SubSeq(s, from(n + 1), Len(s)))>> ELSE <<>>))
  IN IF n = 0 THEN <<s>> ELSE IF Len(parts) = 1 THEN parts ELSE Append(parts, s)
Extract(p, s) == IF p = "num" THEN Split(s) ELSE <<s>>

SubsOf(t, n, f) ==
  Concat([j \in 1..Len(f.subs) |->
    LET ns == Pick(t, n, f.subs[j].alt)
        vs == [k \in 1..Len(ns) |-> Plain(t, ns[k], {})]
        full == Filled(vs)
    IN [k \in 1..Len(full) |-> [name |-> f.subs[j].name, vals |-> Extract(f.subs[j].extract, full[k])]]])

IsWild(f) == f.children = <<<<<<[ax |-> "d", name |-> "*", pred |-> ""]>>>>>>
UseRaw(t, n, f) == CASE f.raw = "true" -> TRUE [] f.raw = "false" -> FALSE [] OTHER -> HasLoose(t, n)
ValuesOf(t, n, f) ==
  IF f.children # <<>> /\ (~IsWild(f) \/ ~UseRaw(t, n, f))
  THEN FromChildren(t, n, f)
  ELSE [vals |-> Filled(<<Spaced(t, n, PickAllSet(t, n, f.ignore))>>), alone |-> <<>>]

(* the annotations of one element selected for field number fi *)
OfNode(t, n, f, fi) ==
  LET v == ValuesOf(t, n, f)
      kept == Filled([k \in 1..Len(v.vals) |-> Keep(f, v.vals[k])])
      vals == Concat([k \in 1..Len(kept) |-> Extract(f.extract, kept[k])])
      subs == SubsOf(t, n, f)
      ann(vs, nx, i) == [name |-> f.name, vals |-> vs, mm |-> f.mm, bond |-> f.bond, next |-> nx,
                         subs |-> subs, key |-> <<-f.prio, n, i, fi>>]
  IN (IF vals = <<>> THEN <<>> ELSE <<ann(vals, f.next, 0)>>)
     \o [k \in 1..Len(v.alone) |-> ann(<<v.alone[k]>>, FALSE, k)]

Lt(a, b) == \E k \in 1..4 : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
Targets(t, m) ==
  LET all == Concat([fi \in 1..Len(m) |->
               LET ns == PickAll(t, 1, m[fi].sel)
               IN Concat([k \in 1..Len(ns) |-> OfNode(t, ns[k], m[fi], fi)])])
  IN SortSeq(all, LAMBDA a, b : Lt(a.key, b.key))

(* no line of a selector selects what another one selects *)
Disjoint(t, n, sel) == LET ns == PickAll(t, n, sel) IN Cardinality(ToSet(ns)) = Len(ns)
Plainly(t, m) == \A fi \in 1..Len(m) :
  /\ Disjoint(t, 1, m[fi].sel)
  /\ \A n \in PickAllSet(t, 1, m[fi].sel) : Disjoint(t, n, m[fi].children)

--------------------------------------------------------------------------------
(* the part of a mapping that is asked for; fields = <<>>: all, subs = <<>>: all  *)
Narrow(m, fields, subs) ==
  LET fs == SelectSeq(m, LAMBDA f : fields = <<>> \/ f.name \in ToSet(fields))
  IN [k \in 1..Len(fs) |->
       [fs[k] EXCEPT !.subs = SelectSeq(@, LAMBDA s : subs = <<>> \/ s.name \in ToSet(subs))]]
FieldNames(m, fields) == IF fields # <<>> THEN ToSet(fields) ELSE {m[k].name : k \in 1..Len(m)}
(* overriding options: prio, mm, bond, unmatched, raw, regex of fields in the mapping *)
Override(m, os) ==
  [k \in 1..Len(m) |->
    FoldSeq(LAMBDA o, f :
      IF o.field # f.name THEN f
      ELSE CASE o.opt = "prio" -> [f EXCEPT !.prio = o.int]
             [] o.opt = "mm" -> [f EXCEPT !.mm = o.flag]
             [] o.opt = "bond" -> [f EXCEPT !.bond = o.flag]
             [] o.opt = "next" -> [f EXCEPT !.next = o.flag]
             [] o.opt = "unmatched" -> [f EXCEPT !.unmatched = o.flag]
             [] o.opt = "regex" -> [f EXCEPT !.regex = "word"]
             [] o.opt = "sel" -> [f EXCEPT !.sel = o.sel], m[k], os)]
=============================================================================
