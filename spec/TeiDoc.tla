-------------------------------- MODULE TeiDoc --------------------------------
(* The annotated training document: reading the annotated part of a TEI file   *)
(* into lines of tokens, and writing lines of tokens back as TEI elements.      *)
(*                                                                             *)
(* token   [x: text, sp: is white space, w: white space that follows,           *)
(*          t, s: tag and sub tag, pt, ps: preserved tag and sub tag]           *)
(* doc     sequence of lines, a line is a sequence of tokens                    *)
(* item    source content: [k:"t", c:chars, cl:char classes], [k:"lb"],         *)
(*         [k:"e", n:element expression, ch:items]                              *)
(* event   written content: <<"o",expr>>, <<"c">>, <<"lb">>,                    *)
(*         <<"t", non-blank text>>, <<"s", blank text>>                         *)
(* Paths   [tag value -> sequence of element expressions], "" is the default    *)
EXTENDS Tags

NoSpaceInfo == "~"     \* no white space information: last token of its line

(******************************** tokenising ********************************)
(* char classes: "s" blank, "p" other non-word, "u"/"l" upper/lower case word   *)
(* character, "w" any other word character                                      *)
BreakBefore(cl, k) ==
  \/ cl[k] \in {"s", "p"}
  \/ cl[k - 1] \in {"s", "p"}
  \/ cl[k] = "u" /\ cl[k - 1] = "l"
Starts(cl) == {k \in 1..Len(cl) : k = 1 \/ BreakBefore(cl, k)}
RECURSIVE SplitAt(_, _, _)
SplitAt(c, cl, from) ==
  IF from > Len(c) THEN <<>>
  ELSE LET ends == {k \in from..Len(c) : k = Len(c) \/ BreakBefore(cl, k + 1)}
           e == CHOOSE k \in ends : \A j \in ends : k <= j
       IN <<[x |-> Concat(SubSeq(c, from, e)), sp |-> cl[from] = "s"]>>
            \o SplitAt(c, cl, e + 1)
Tokenise(c, cl) == SplitAt(c, cl, 1)

(********************************* reading **********************************)
Blank(item) == \A k \in 1..Len(item.cl) : item.cl[k] = "s"
DirectText(items) == \E k \in 1..Len(items) : items[k].k = "t" /\ ~Blank(items[k])
PathStr(path) ==
  IF path = <<>> THEN ""
  ELSE path[1] \o Concat([k \in 1..(Len(path) - 1) |-> "/" \o path[k + 1]])

(* reader state: lines read so far, current line, next tag, next sub tag *)
RInit == [lines |-> <<>>, buf |-> <<>>, nt |-> NoTag, ns |-> NoTag]

AppendToken(st, tok) ==
  LET buf0 == IF st.buf = <<>> THEN <<>>
              ELSE [st.buf EXCEPT ![Len(st.buf)].w = IF tok.sp THEN tok.x ELSE ""]
  IN [st EXCEPT
        !.buf = Append(buf0, [x |-> tok.x, sp |-> tok.sp, w |-> NoSpaceInfo,
                              t |-> st.nt, s |-> st.ns, pt |-> NoTag, ps |-> NoTag]),
        !.nt = ToInside(st.nt), !.ns = ToInside(st.ns)]

RECURSIVE ReadEl(_, _, _, _)
ReadItem(items, path, roots, st, k) ==
  LET it == items[k]
  IN CASE it.k = "t" -> FoldLeft(AppendToken, st, Tokenise(it.c, it.cl))
       [] it.k = "lb" -> [st EXCEPT !.lines = Append(st.lines, st.buf), !.buf = <<>>]
       [] it.k = "e" -> ReadEl(it.ch, Append(path, it.n), roots, st)
ReadEl(items, path, roots, st) ==
  LET cur == PathStr(path)
      tagged == DirectText(items) \/ cur \in roots
      st1 == IF ~tagged THEN st
             ELSE IF st.nt = NoTag THEN [st EXCEPT !.nt = B(cur)]
             ELSE [st EXCEPT !.ns = B(cur)]
      st2 == FoldLeft(LAMBDA a, k : ReadItem(items, path, roots, a, k), st1,
                      [k \in 1..Len(items) |-> k])
  IN IF st.nt = NoTag THEN [st2 EXCEPT !.nt = NoTag] ELSE [st2 EXCEPT !.ns = NoTag]

(* mapping: sequence of <<tag value, path string>>; the last one wins *)
RootPaths(mapping) == {mapping[k][2] : k \in 1..Len(mapping)}
RevValue(mapping, v) ==
  LET ks == {k \in 1..Len(mapping) : mapping[k][2] = v}
  IN IF ks = {} THEN v ELSE mapping[CHOOSE k \in ks : \A j \in ks : j <= k][1]
RevTag(mapping, t) == IF t = NoTag THEN NoTag ELSE Tag(Prefix(t), RevValue(mapping, Val(t)))

ReadLines(items, mapping) ==
  LET st == ReadEl(items, <<>>, RootPaths(mapping), RInit)
  IN IF st.buf = <<>> THEN st.lines ELSE Append(st.lines, st.buf)

MapTokens(doc, Op(_)) == [l \in 1..Len(doc) |-> [k \in 1..Len(doc[l]) |-> Op(doc[l][k])]]

(* the loaded document: everything that was tagged is remembered as preserved *)
Load(items, mapping, preserve) ==
  MapTokens(ReadLines(items, mapping),
            LAMBDA tok : [tok EXCEPT !.t = NoTag, !.s = NoTag,
                                     !.pt = IF preserve THEN RevTag(mapping, tok.t) ELSE NoTag,
                                     !.ps = IF preserve THEN RevTag(mapping, tok.s) ELSE NoTag])

(********************************* writing **********************************)
Main(tok) == Or(tok.t, tok.pt)
Sub(tok) == Or(tok.s, tok.ps)
MainPath(tok, Paths) == Paths[Val(Main(tok))]
HasSub(tok, Paths) ==
  Sub(tok) # NoTag /\ IsPrefixOf(MainPath(tok, Paths), Paths[Val(Sub(tok))])
ReqPath(tok, Paths) ==
  IF HasSub(tok, Paths) THEN Paths[Val(Sub(tok))] ELSE MainPath(tok, Paths)

ParentPath(p) == IF p = <<>> THEN <<>> ELSE Front(p)

WInit == [ev |-> <<>>, cur |-> <<>>, pend |-> <<>>, reset |-> {}]
Emit(w, e) ==   \* adjacent texts of the same kind are one text
  IF Len(e) = 2 /\ e[1] \in {"t", "s"} /\ w.ev # <<>> /\ Last1(w.ev)[1] = e[1]
  THEN [w EXCEPT !.ev = Append(Front(w.ev), <<e[1], Last1(w.ev)[2] \o e[2]>>)]
  ELSE [w EXCEPT !.ev = Append(w.ev, e)]
Goto(w, path) ==
  LET k == CommonLen(w.cur, path)
  IN [w EXCEPT !.ev = w.ev \o [j \in 1..(Len(w.cur) - k) |-> <<"c">>]
                           \o [j \in 1..(Len(path) - k) |-> <<"o", path[k + j]>>],
               !.cur = path]
GotoBelow(w, path) == Goto(w, SubSeq(w.cur, 1, CommonLen(w.cur, path)))

WriteSpace(w, path, x) == Emit(GotoBelow(w, path), <<"s", x>>)
WriteToken(w, tok, Paths) ==
  IF tok.sp
  THEN [w EXCEPT !.pend = Append(w.pend, tok.x),
                 !.reset = IF Prefix(Main(tok)) = "b" THEN w.reset \cup {Val(Main(tok))}
                           ELSE w.reset]
  ELSE
    LET m == MainPath(tok, Paths)
        r == ReqPath(tok, Paths)
        w1 == IF Prefix(Main(tok)) = "b" THEN Goto(w, ParentPath(m))
              ELSE IF Val(Main(tok)) \in w.reset THEN Goto(w, <<>>)
              ELSE IF HasSub(tok, Paths) /\ Prefix(Sub(tok)) = "b"
                   THEN GotoBelow(w, ParentPath(r))
              ELSE w
        w2 == FoldLeft(LAMBDA a, x : WriteSpace(a, r, x), w1, w1.pend)
    IN Emit(Goto([w2 EXCEPT !.pend = <<>>, !.reset = {}], r), <<"t", tok.x>>)

Write(doc, Paths) ==
  LET WriteLine(w, l) ==
        LET w0 == IF l = 1 THEN w ELSE Emit(w, <<"lb">>)
        IN FoldLeft(LAMBDA a, tok : WriteToken(a, tok, Paths), w0, doc[l])
      w1 == FoldLeft(WriteLine, WInit, [l \in 1..Len(doc) |-> l])
      w2 == FoldLeft(LAMBDA a, x : WriteSpace(a, <<>>, x), w1, w1.pend)
  IN Goto(w2, <<>>).ev

(************************* what a user relies on ****************************)
IsText(e) == e[1] \in {"t", "s"}
TextOfEvents(ev) == Concat([k \in 1..Len(ev) |-> IF IsText(ev[k]) THEN ev[k][2] ELSE ""])
TextOfDoc(doc) == Concat([l \in 1..Len(doc) |-> Concat([k \in 1..Len(doc[l]) |-> doc[l][k].x])])
RECURSIVE TextOfItems(_)
TextOfItems(items) ==
  Concat([k \in 1..Len(items) |->
            CASE items[k].k = "t" -> Concat(items[k].c)
              [] items[k].k = "lb" -> ""
              [] items[k].k = "e" -> TextOfItems(items[k].ch)])

(* the non-blank text of every line, without trailing empty lines *)
RECURSIVE DropTrailingEmpty(_)
DropTrailingEmpty(ls) ==
  IF ls # <<>> /\ Last1(ls) = "" THEN DropTrailingEmpty(Front(ls)) ELSE ls
LinesOfEvents(ev) ==
  DropTrailingEmpty(FoldLeft(
    LAMBDA a, e : CASE e[1] = "lb" -> Append(a, "")
                    [] e[1] = "t" -> Append(Front(a), Last1(a) \o e[2])
                    [] OTHER -> a,
    <<"">>, ev))
LinesOfDoc(doc) ==
  DropTrailingEmpty([l \in 1..Len(doc) |->
    Concat([k \in 1..Len(doc[l]) |-> IF doc[l][k].sp THEN "" ELSE doc[l][k].x])])

(* the element structure around the non-blank text: blanks and line breaks taken out *)
Shape(ev) ==
  FoldLeft(LAMBDA a, e : IF e[1] = "t" /\ a # <<>> /\ Last1(a)[1] = "t"
                         THEN Append(Front(a), <<"t", Last1(a)[2] \o e[2]>>) ELSE Append(a, e),
           <<>>, SelectSeq(ev, LAMBDA e : e[1] \notin {"s", "lb"}))

(* The non-blank tokens in order, and for each non-blank text of the output the  *)
(* chain of elements it is in; elements are identified by the position at which  *)
(* they are opened.                                                              *)
Solid(doc) == SelectSeq(Flat(doc), LAMBDA tok : ~tok.sp)
Chains(ev) ==   \* sequence of [x, ids, names] of the non-blank texts
  FoldLeft(
    LAMBDA a, k :
      LET e == ev[k]
      IN CASE e[1] = "o" -> [a EXCEPT !.ids = Append(a.ids, k), !.names = Append(a.names, e[2])]
           [] e[1] = "c" -> [a EXCEPT !.ids = Front(a.ids), !.names = Front(a.names)]
           [] e[1] = "t" -> [a EXCEPT !.out = Append(a.out, [x |-> e[2], ids |-> a.ids,
                                                              names |-> a.names])]
           [] OTHER -> a,
    [ids |-> <<>>, names |-> <<>>, out |-> <<>>],
    [k \in 1..Len(ev) |-> k]).out

(* the annotations as a reader sees them: runs of non-blank text in one and the   *)
(* same element, with the names of the elements around it                         *)
Annotations(ev) ==
  LET Step(a, c) == IF a # <<>> /\ Last1(a).ids = c.ids
                    THEN Append(Front(a), [Last1(a) EXCEPT !.x = Last1(a).x \o c.x])
                    ELSE Append(a, c)
      runs == FoldLeft(Step, <<>>, Chains(ev))
  IN [k \in 1..Len(runs) |-> <<runs[k].names, runs[k].x>>]

(* Places: for every non-blank token the chain of the output text it lies in.    *)
(* Consumes the output texts token by token; a token that does not line up gets  *)
(* no chain.                                                                     *)
NoChain == [ids |-> <<0>>, names |-> <<"?">>]
Places(doc, ev) ==
  LET toks == Solid(doc)
      ch == Chains(ev)
      Step(a, k) ==
        \* a.j: current output text, a.rest: its text not consumed yet
        LET x == toks[k].x
            a1 == IF a.rest = "" /\ a.j < Len(ch)
                  THEN [a EXCEPT !.j = a.j + 1, !.rest = ch[a.j + 1].x] ELSE a
        IN IF a1.j > 0 /\ Len(x) <= Len(a1.rest) /\ SubSeq(a1.rest, 1, Len(x)) = x
           THEN [a1 EXCEPT !.rest = SubSeq(a1.rest, Len(x) + 1, Len(a1.rest)),
                           !.out = Append(a1.out, [ids |-> ch[a1.j].ids,
                                                   names |-> ch[a1.j].names])]
           ELSE [a1 EXCEPT !.out = Append(a1.out, NoChain)]
  IN FoldLeft(Step, [j |-> 0, rest |-> "", out |-> <<>>], [k \in 1..Len(toks) |-> k]).out

(* every token is in exactly the elements its tag stands for *)
InMappedElements(doc, ev, Paths) ==
  LET toks == Solid(doc) pl == Places(doc, ev)
  IN \A k \in 1..Len(toks) : pl[k].names = ReqPath(toks[k], Paths)
(* a token that begins an annotation begins a new element *)
BeginsNewElement(doc, ev, Paths) ==
  LET toks == Solid(doc) pl == Places(doc, ev)
  IN \A k \in 2..Len(toks) :
       LET m == Len(MainPath(toks[k], Paths))
       IN (Prefix(Main(toks[k])) = "b" /\ m > 0) =>
            (\A j \in 1..(k - 1) : Len(pl[j].ids) < m \/ pl[j].ids[m] # pl[k].ids[m])
(* a token that continues the annotation of the token before it shares its element *)
Continues(tok) == Prefix(Main(tok)) = "i" /\ Prefix(Sub(tok)) # "b"
SpacesBetween(doc) ==   \* for each non-blank token: is a blank that begins an annotation before it
  LET f == Flat(doc)
  IN FoldLeft(LAMBDA a, tok :
        IF tok.sp THEN [a EXCEPT !.b = a.b \/ Prefix(Main(tok)) = "b"]
        ELSE [b |-> FALSE, out |-> Append(a.out, a.b)],
      [b |-> FALSE, out |-> <<>>], f).out
ContinuesElement(doc, ev, Paths) ==
  LET toks == Solid(doc) pl == Places(doc, ev) beg == SpacesBetween(doc)
  IN \A k \in 2..Len(toks) :
       (/\ Continues(toks[k]) /\ ~beg[k]
        /\ ReqPath(toks[k], Paths) = ReqPath(toks[k - 1], Paths))
       => pl[k].ids = pl[k - 1].ids

(****************** what happens to existing mark-up on loading ***************)
(* phase 1: fields that are always preserved are tagged before anything else     *)
ApplyPreserved(doc, fields) ==
  MapTokens(doc, LAMBDA tok : IF Val(Main(tok)) \in fields /\ Main(tok) # NoTag
                              THEN [tok EXCEPT !.t = Main(tok)] ELSE tok)
(* phase 2: what is kept of the existing tags                                    *)
Kept(tag, opt) ==
  IF ~(opt.preserve \/ opt.always # {}) THEN NoTag
  ELSE IF Val(tag) \in (opt.fields \ opt.always) THEN NoTag
  ELSE IF opt.always # {} /\ Val(tag) \notin opt.always THEN NoTag
  ELSE tag
KeptSub(tag, opt) ==
  IF ~opt.preserveSub THEN NoTag
  ELSE IF Val(tag) \in opt.noPreserveSub THEN NoTag ELSE tag
KeepTags(doc, opt) ==
  MapTokens(doc, LAMBDA tok :
    LET m == Main(tok) s == Sub(tok)
        tok1 == IF Kept(m, opt) # m THEN [tok EXCEPT !.t = Kept(m, opt), !.pt = NoTag] ELSE tok
    IN IF KeptSub(s, opt) # s THEN [tok1 EXCEPT !.s = KeptSub(s, opt), !.ps = NoTag] ELSE tok1)
(* the document the annotator is given *)
Prepared(items, mapping, opt) ==
  KeepTags(ApplyPreserved(Load(items, mapping, TRUE), opt.always), opt)

(************************* changing tags of a document ************************)
(* Setting a tag that changes the value forgets the preserved tag of all tokens  *)
(* of the line that carried the same preserved value.                            *)
ClearSame(line, k, f) ==
  LET v == Val(line[k][f])
  IN IF v = "" THEN line
     ELSE [j \in 1..Len(line) |-> IF Val(line[j][f]) = v THEN [line[j] EXCEPT ![f] = NoTag]
                                  ELSE line[j]]
SetMainInLine(line, k, tag) ==
  LET prev == Main(line[k])
      l1 == [line EXCEPT ![k].t = tag]
  IN IF line[k].sp \/ Val(tag) = Val(prev) THEN l1
     ELSE ClearSame(ClearSame(l1, k, "pt"), k, "ps")
SetSubInLine(line, k, tag) ==
  LET prev == Sub(line[k])
      l1 == [line EXCEPT ![k].s = tag]
  IN IF line[k].sp \/ Val(tag) = Val(prev) THEN l1 ELSE ClearSame(l1, k, "ps")
SetMain(doc, l, k, tag) == [doc EXCEPT ![l] = SetMainInLine(doc[l], k, tag)]
SetSub(doc, l, k, tag) == [doc EXCEPT ![l] = SetSubInLine(doc[l], k, tag)]
SetMainOnly(doc, l, k, tag) == [doc EXCEPT ![l][k].t = tag]
SetSubOnly(doc, l, k, tag) == [doc EXCEPT ![l][k].s = tag]
=============================================================================
