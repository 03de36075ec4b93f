--------------------------------- MODULE Jats ---------------------------------
(* Fixing the references of an article.                                           *)
(*                                                                                *)
(* A reference is a sequence of citations [mixed, items]. An item is a stretch of *)
(* text or an element: [k, x, href], k one of "text", "title", "rich", "link", "comment", *)
(* an identifier type ("doi", "pmid", "pmcid", "pii", "other", ...) or any other  *)
(* element; x its characters; href the target of a link ("" where it has none).   *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Range2(s) == {s[k] : k \in 1..Len(s)}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r",
           "s", "t", "u", "v", "w", "x", "y", "z">>
Upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R",
           "S", "T", "U", "V", "W", "X", "Y", "Z">>
LowerSet == Range2(Lower)
UpperSet == Range2(Upper)
White == {" ", "\n", "\t"}
IsWord(c) == c \in Digit \cup LowerSet \cup UpperSet
Punct == {".", ",", ";", ":", "-", "/", "(", ")", "[", "]", "\"", "LS", "RS", "LD", "RD"}
ToLow(c) == IF c \in UpperSet THEN Lower[CHOOSE k \in 1..26 : Upper[k] = c] ELSE c
Low(s) == [k \in 1..Len(s) |-> ToLow(s[k])]
Cut(s, a, b) == SubSeq(s, a, b)
FromTo(s, a) == SubSeq(s, a, Len(s))
At(s, p, w) == p + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[p + k - 1] = w[k]
Has(s, w) == \E p \in 1..Len(s) : At(s, p, w)
EndsWith(s, w) == Len(s) >= Len(w) /\ At(s, Len(s) - Len(w) + 1, w)
Border(s, p) == (p > 1 /\ IsWord(s[p - 1])) # (p <= Len(s) /\ IsWord(s[p]))
RECURSIVE RStrip(_, _)
RStrip(s, cs) == IF s # <<>> /\ s[Len(s)] \in cs THEN RStrip(Cut(s, 1, Len(s) - 1), cs) ELSE s
(* last position of the run of characters in cs that begins at p; p - 1 if none *)
RunEnd(s, p, cs) == CHOOSE e \in (p - 1)..Len(s) : /\ \A k \in p..e : s[k] \in cs
                                                   /\ e = Len(s) \/ s[e + 1] \notin cs
SkipWhite(s, p) == IF p > Len(s) THEN p ELSE RunEnd(s, p, White) + 1
NoSpan == <<0, 0>>
First(S) == CHOOSE a \in S : \A b \in S : a <= b

--------------------------------------------------------------------------------
(* DOI: 10.NNNN[.N...]/anything *)
RECURSIVE DoiSlash(_, _)
DoiSlash(s, p) ==        \* p: behind the digits; position of the slash or 0
  IF p > Len(s) THEN 0
  ELSE IF s[p] = "/" THEN p
  ELSE IF s[p] = "." /\ p < Len(s) /\ s[p + 1] \in Digit
       THEN DoiSlash(s, RunEnd(s, p + 1, Digit) + 1)
  ELSE 0
IsDoiAt(s, p) ==
  /\ At(s, p, <<"1", "0", ".">>) /\ (p = 1 \/ ~IsWord(s[p - 1]))
  /\ p + 3 <= Len(s)
  /\ LET e == RunEnd(s, p + 3, Digit)
         sl == DoiSlash(s, e + 1)
     IN e - (p + 3) + 1 >= 4 /\ sl # 0 /\ sl < Len(s) /\ s[sl + 1] # "\n"
DoiStarts(s) == {p \in 1..Len(s) : IsDoiAt(s, p)}
LineEnd(s, p) == CHOOSE e \in p..Len(s) : /\ \A k \in p..e : s[k] # "\n"
                                          /\ e = Len(s) \/ s[e + 1] = "\n"
RawDoi(s) == IF DoiStarts(s) = {} THEN NoSpan ELSE <<First(DoiStarts(s)), LineEnd(s, First(DoiStarts(s)))>>

StopWords == {<<"p", "u", "b", "m", "e", "d">>, <<"p", "m", "i", "d">>, <<"p", "m", "c", "i", "d">>,
              <<"e", "r", "r", "o", "r">>, <<"e", "p", "u", "b">>,
              <<"a", "c", "c", "e", "s", "s", "e", "d">>}
Stops(d) == {p \in 1..Len(d) : /\ d[p] \in White \cup {"("}
                               /\ \E w \in StopWords : /\ At(Low(d), p + 1, w)
                                                       /\ Border(d, p + 1 + Len(w))}
AtStop(d) == IF Stops(d) = {} THEN d
             ELSE RStrip(RStrip(Cut(d, 1, First(Stops(d)) - 1), White), {"."})
Bare(s, cs) == SelectSeq(s, LAMBDA c : c \notin cs)
Marked(d, w) == IF EndsWith(d, w) THEN RStrip(Cut(d, 1, Len(d) - Len(w)), White) ELSE d
(* "<doi> <part of it> [pii]" *)
NoPii(d) ==
  IF ~EndsWith(d, <<"[", "p", "i", "i", "]">>) THEN d
  ELSE LET m == Marked(d, <<"[", "p", "i", "i", "]">>)
           bl == {p \in 1..Len(m) : m[p] = " "}
       IN IF bl = {} THEN m
          ELSE LET b == CHOOSE p \in bl : \A q \in bl : q <= p
                   head == Cut(m, 1, b - 1)
                   cand == FromTo(m, b + 1)
               IN IF Len(cand) < 3 THEN m
                  ELSE IF Has(head, cand) THEN RStrip(head, White)
                  ELSE IF Len(Bare(cand, Punct)) < 3 THEN m
                  ELSE IF Has(Bare(head, Punct), Bare(cand, Punct)) THEN RStrip(head, White)
                  ELSE m
(* "<doi> <the same doi>" *)
NoRepeat(d) ==
  LET sl == First({p \in 1..Len(d) : d[p] = "/"})
      path == FromTo(d, sl + 1)
      o == RawDoi(path)
      head == Cut(d, 1, sl + o[1] - 1)
      other == FromTo(path, o[1])
  IN IF o = NoSpan THEN d
     ELSE IF Has(head, other) \/ Has(Bare(head, Punct \cup White), Bare(other, Punct \cup White))
          THEN RStrip(head, White) ELSE d
Balanced(d) ==
  IF Cardinality({p \in 1..Len(d) : d[p] = "]"}) > Cardinality({p \in 1..Len(d) : d[p] = "["})
  THEN RStrip(RStrip(d, {"]"}), White) ELSE d
CleanDoi(d) ==
  Balanced(RStrip(RStrip(NoRepeat(NoPii(Marked(AtStop(RStrip(RStrip(RStrip(d, White), {"."}), White)),
                                               <<"[", "d", "o", "i", "]">>))), {";"}), White))
FindDoi(s) == LET r == RawDoi(s)
              IN IF r = NoSpan THEN NoSpan ELSE <<r[1], r[1] + Len(CleanDoi(Cut(s, r[1], r[2]))) - 1>>

(* other identifiers *)
Announced(s, p, w, fold) ==     \* position of what follows "<w> :", or 0
  IF ~At(IF fold THEN Low(s) ELSE s, p, w) THEN 0
  ELSE LET c == SkipWhite(s, p + Len(w))
       IN IF c <= Len(s) /\ s[c] = ":" THEN SkipWhite(s, c + 1) ELSE 0
DigitsAt(s, p) == IF p = 0 \/ p > Len(s) THEN 0 ELSE RunEnd(s, p, Digit) - p + 1
NumberAt(s, p, lo, hi) == LET n == DigitsAt(s, p)
                          IN n >= lo /\ n <= hi /\ (p + n > Len(s) \/ ~IsWord(s[p + n]))
SpanOf(s, p) == <<p, p + DigitsAt(s, p) - 1>>
FindAnnounced(s, w, lo, hi, fold) ==
  LET ps == {p \in 1..Len(s) : LET a == Announced(s, p, w, fold) IN a # 0 /\ NumberAt(s, a, lo, hi)}
  IN IF ps = {} THEN NoSpan ELSE SpanOf(s, Announced(s, First(ps), w, fold))
FindPmid(s) == FindAnnounced(s, <<"P", "M", "I", "D">>, 1, 10, FALSE)
FindWos(s) == FindAnnounced(s, <<"w", "o", "s">>, 15, 15, TRUE)
FindPmidFix(s) ==
  LET ps == {p \in 1..Len(s) : (p = 1 \/ ~IsWord(s[p - 1])) /\ NumberAt(s, p, 1, 10)}
  IN IF ps = {} THEN NoSpan ELSE SpanOf(s, First(ps))
FindPmcid(s) ==
  LET ps == {p \in 1..Len(s) : At(Low(s), p, <<"p", "m", "c">>) /\ DigitsAt(s, p + 3) > 0}
  IN IF ps = {} THEN NoSpan ELSE <<First(ps), First(ps) + 2 + DigitsAt(s, First(ps) + 3)>>
PiiStretch(s, p) == CHOOSE e \in p..Len(s) :
                      /\ \A k \in (p + 1)..e : s[k] \in Digit \cup {"x", "X"} \/ ~IsWord(s[k])
                      /\ e = Len(s) \/ (IsWord(s[e + 1]) /\ s[e + 1] \notin Digit \cup {"x", "X"})
PiiEnd(s, p) == LET e == PiiStretch(s, p)
                    ds == {k \in (p + 1)..e : s[k] \in Digit \cup {"x", "X"}}
                IN IF Cardinality(ds) < 16 THEN 0 ELSE CHOOSE k \in ds : \A j \in ds : j <= k
FindPii(s) ==
  LET ps == {p \in 1..Len(s) : s[p] \in {"S", "B"} /\ (p = 1 \/ ~IsWord(s[p - 1])) /\ PiiEnd(s, p) # 0}
  IN IF ps = {} THEN NoSpan ELSE <<First(ps), PiiEnd(s, First(ps))>>
(* "<five or more characters> [pii]" *)
PiiMark == <<"[", "p", "i", "i", "]">>
OtherEnds(s, a) == {e \in (a + 4)..Len(s) : /\ \A k \in a..e : s[k] \notin White
                                            /\ At(s, SkipWhite(s, e + 1), PiiMark)}
OtherFrom(s, p) ==
  LET d == IF At(s, p, <<"d", "o", "i", ":">>) THEN p + 4 ELSE 0
      longest(a) == <<a, CHOOSE e \in OtherEnds(s, a) : \A f \in OtherEnds(s, a) : f <= e>>
  IN IF d # 0 /\ d <= Len(s) /\ OtherEnds(s, d) # {} THEN longest(d)
     ELSE IF OtherEnds(s, p) # {} THEN longest(p) ELSE NoSpan
FindPiiOther(s) ==
  LET ps == {p \in 1..Len(s) : Border(s, p) /\ OtherFrom(s, p) # NoSpan}
  IN IF ps = {} THEN NoSpan ELSE OtherFrom(s, First(ps))

(* links: without a repeated doi in brackets *)
DoiOrg == <<"d", "o", "i", ".", "o", "r", "g">>
LinkCut(s) ==
  LET ps == IF ~Has(s, DoiOrg) THEN {}
            ELSE {p \in 1..Len(s) : /\ s[p] = "[" /\ IsDoiAt(s, p + 1)
                                    /\ \E q \in (DoiSlash(s, RunEnd(s, p + 4, Digit) + 1) + 2)..Len(s) :
                                         s[q] = "]"}
  IN IF ps = {} THEN Len(s) ELSE (CHOOSE p \in ps : \A q \in ps : q <= p) - 1
FindLink(s) == <<1, LinkCut(s)>>
(* titles: without ", " or "; PMC123" behind it and quotes around it *)
TitleEnd(s) ==
  CHOOSE e \in 0..Len(s) :
    LET ok(f) == LET r == FromTo(s, f + 1)
                 IN \/ r = <<>>
                    \/ RStrip(r, White) # <<>> /\ LET q == SkipWhite(r, 1) IN r[q] = "," /\ SkipWhite(r, q + 1) = Len(r) + 1
                    \/ /\ r[1] = ";"
                       /\ LET q == SkipWhite(r, 2)
                          IN At(r, q, <<"P", "M", "C">>) /\ DigitsAt(r, q + 3) > 0
                             /\ q + 2 + DigitsAt(r, q + 3) = Len(r)
    IN ok(e) /\ \A f \in 0..(e - 1) : ~ok(f)
Pairs == {<<"\"", "\"">>, <<"LS", "RS">>, <<"LD", "RD">>}
Quoted(s, a, b) == b >= a + 2 /\ <<s[a], s[b]>> \in Pairs
FindTitle(s) == LET e == TitleEnd(s) IN IF Quoted(s, 1, e) THEN <<2, e - 1>> ELSE <<1, e>>

--------------------------------------------------------------------------------
(* items *)
Text(x) == [k |-> "text", x |-> x, href |-> <<>>]
El(k, x) == [k |-> k, x |-> x, href |-> <<>>]
(* neighbouring texts are one text; empty texts are none *)
Tidy(its) ==
  FoldSeq(LAMBDA it, acc :
            IF it.k # "text" THEN Append(acc, it)
            ELSE IF it.x = <<>> THEN acc
            ELSE IF acc # <<>> /\ acc[Len(acc)].k = "text"
                 THEN [acc EXCEPT ![Len(acc)].x = @ \o it.x]
            ELSE Append(acc, it), <<>>, its)
Flat(ss) == FoldSeq(LAMBDA x, acc : acc \o x, <<>>, ss)
MapItems(its, F(_)) == Tidy(Flat([j \in 1..Len(its) |-> F(its[j])]))
NarrowOne(it, Find(_)) ==
  IF it.x = <<>> THEN <<it>>
  ELSE LET sp == Find(it.x)
       IN IF sp = NoSpan THEN <<Text(it.x)>>
          ELSE <<Text(Cut(it.x, 1, sp[1] - 1)), [it EXCEPT !.x = Cut(@, sp[1], sp[2])],
                 Text(FromTo(it.x, sp[2] + 1))>>
(* the elements of kind k are reduced to what they stand for, or dropped if it is not there *)
Narrow(its, k, Find(_)) == MapItems(its, LAMBDA it : IF it.k = k THEN NarrowOne(it, Find) ELSE <<it>>)
(* a quote that is opened at the beginning of a title and not closed is not part of it *)
OpenQuote(it) ==
  IF it.k = "title" /\ Len(it.x) >= 2 /\ \E p \in Pairs : p[1] = it.x[1]
       /\ LET r == (CHOOSE q \in Pairs : q[1] = it.x[1])[2] IN \A j \in 2..Len(it.x) : it.x[j] # r
  THEN <<Text(<<it.x[1]>>), [it EXCEPT !.x = Tail(@)]>> ELSE <<it>>
(* titles with markup inside ("rich"; something else than quotes and commas comes last in them): without the  *)
(* comma behind, the quotes around and the comma inside of them                       *)
RichTitle(it) ==
  IF it.k # "rich" THEN <<it>>
  ELSE LET Bare2(s) == RStrip(s, {",", " "})
           x == Bare2(it.x)
           two == Len(x) >= 1 /\ Quoted(x, 1, Len(x))
           inner == IF two THEN Bare2(Cut(x, 2, Len(x) - 1)) ELSE x
           open == OpenQuote([it EXCEPT !.k = "title", !.x = inner])
           from == IF two THEN 2 ELSE IF Len(open) = 2 THEN 2 ELSE 1
           to == IF two THEN 1 + Len(inner) ELSE Len(x)
       IN <<Text(Cut(it.x, 1, from - 1)), [it EXCEPT !.x = Cut(@, from, to)], Text(FromTo(it.x, to + 1))>>

(* where the url of a doi resolver begins at the end of a text, 0 if it does not end with one *)
Squeeze(s) == Bare(s, White)
IsDoiUrl(u) == \E pre \in {<<>>, <<"h", "t", "t", "p", ":", "/", "/">>, <<"h", "t", "t", "p", "s", ":", "/", "/">>} :
                 /\ At(u, 1, pre)
                 /\ LET r == FromTo(u, Len(pre) + 1)
                        host == r = DoiOrg \o <<"/">>
                        n == RunEnd(r, 1, LowerSet)
                    IN host \/ (r # <<>> /\ n >= 1 /\ FromTo(r, n + 1) = <<".">> \o DoiOrg \o <<"/">>)
UrlStart(s) == LET ps == {p \in 1..Len(s) : s[p] \notin White /\ IsDoiUrl(Squeeze(FromTo(s, p)))}
               IN IF ps = {} THEN 0 ELSE First(ps)
Scheme == <<":", "/", "/">>
FullUrl(x) == IF Has(Squeeze(x), Scheme) THEN Squeeze(x)
              ELSE <<"h", "t", "t", "p", "s", ":", "/", "/">> \o Squeeze(x)
DoiLinks(its) ==
  Tidy(Flat([j \in 1..Len(its) |->
    LET it == its[j]
        prev == IF j > 1 /\ its[j - 1].k = "text" THEN its[j - 1].x ELSE <<>>
        urlHere == it.k = "doi" /\ it.x # <<>> /\ prev # <<>> /\ UrlStart(prev) # 0
        next == j < Len(its) /\ it.k = "text" /\ its[j + 1].k = "doi" /\ its[j + 1].x # <<>>
                /\ UrlStart(it.x) # 0
    IN IF urlHere THEN LET u == FromTo(prev, UrlStart(prev)) \o it.x
                       IN <<[k |-> "link", x |-> u, href |-> FullUrl(u)]>>
       ELSE IF next THEN <<Text(Cut(it.x, 1, UrlStart(it.x) - 1))>> ELSE <<it>>]))

(* a link with several urls becomes several links *)
Http == <<"h", "t", "t", "p">>
UrlAt(s, p) == At(s, p, Http \o Scheme) \/ At(s, p, Http \o <<"s">> \o Scheme)
Urls(s) == LET ps == SetToSortSeq({1} \cup {p \in 2..Len(s) : UrlAt(s, p)}, LAMBDA a, b : a < b)
           IN [k \in 1..Len(ps) |-> Cut(s, ps[k], IF k = Len(ps) THEN Len(s) ELSE ps[k + 1] - 1)]
JoinW(us) == FoldSeq(LAMBDA u, acc : IF acc = <<>> THEN u ELSE acc \o <<"w">> \o u, <<>>, us)
SplitLink(it) ==
  IF it.k # "link" \/ it.x = <<>> \/ it.href = <<>> THEN <<it>>
  ELSE LET us == Urls(it.x)
       IN IF Len(us) = 1 \/ (it.href # it.x /\ it.href # JoinW(us)) THEN <<it>>
          ELSE [k \in 1..Len(us) |-> [k |-> "link", x |-> us[k],
                                      href |-> IF k = 1 THEN us[1] ELSE FullUrl(us[k])]]
CutHref(it) == IF it.k = "link" /\ it.href # <<>>
               THEN <<[it EXCEPT !.href = Cut(@, 1, LinkCut(@))]>> ELSE <<it>>
FixLinks(its) == MapItems(Narrow(MapItems(its, SplitLink), "link", FindLink), CutHref)

(* the first text in which it is found gets the identifier; then the first comment, if asked for *)
HasIt(its, k, Find(_)) == {j \in 1..Len(its) : its[j].k = k /\ its[j].x # <<>> /\ Find(its[j].x) # NoSpan}
AddTo(its, k, Find(_), inComment) ==
  LET ts == HasIt(its, "text", Find)
      cs == IF inComment THEN HasIt(its, "comment", Find) ELSE {}
      put(j, head) == Tidy(Flat([m \in 1..Len(its) |->
        IF m # j THEN <<its[m]>>
        ELSE LET x == its[j].x
                 sp == Find(x)
             IN <<[its[j] EXCEPT !.x = Cut(@, 1, sp[1] - 1)], El(k, Cut(x, sp[1], sp[2])),
                  Text(FromTo(x, sp[2] + 1))>>]))
  IN IF ts # {} THEN put(First(ts), "text") ELSE IF cs # {} THEN put(First(cs), "comment") ELSE its
Found(its, Find(_), inComment) == HasIt(its, "text", Find) # {} \/ (inComment /\ HasIt(its, "comment", Find) # {})
Kinds(ref) == UNION {{ref[c].items[j].k : j \in 1..Len(ref[c].items)} : c \in 1..Len(ref)}
AddFirst(ref, k, Find(_), inComment) ==
  LET cs == {c \in 1..Len(ref) : ref[c].mixed /\ Found(ref[c].items, Find, inComment)}
  IN IF cs = {} THEN ref ELSE [ref EXCEPT ![First(cs)].items = AddTo(@, k, Find, inComment)]
AddMissing(ref, missing, k, Find(_), inComment) ==
  IF missing \in Kinds(ref) THEN ref ELSE AddFirst(ref, k, Find, inComment)

Each(ref, F(_)) == [c \in 1..Len(ref) |-> [ref[c] EXCEPT !.items = F(@)]]
NSteps == 14
Step(ref, n) ==
  CASE n = 1 -> Each(ref, LAMBDA its : Narrow(its, "title", FindTitle))
    [] n = 2 -> Each(ref, LAMBDA its : MapItems(MapItems(its, OpenQuote), RichTitle))
    [] n = 3 -> Each(ref, LAMBDA its : Narrow(its, "doi", FindDoi))
    [] n = 4 -> Each(ref, DoiLinks)
    [] n = 5 -> Each(ref, FixLinks)
    [] n = 6 -> Each(ref, LAMBDA its : Narrow(its, "pii", FindPii))
    [] n = 7 -> Each(ref, LAMBDA its : Narrow(its, "pmid", FindPmidFix))
    [] n = 8 -> Each(ref, LAMBDA its : Narrow(its, "pmcid", FindPmcid))
    [] n = 9 -> AddMissing(ref, "pmid", "pmid", FindPmid, TRUE)
    [] n = 10 -> AddMissing(ref, "pmcid", "pmcid", FindPmcid, TRUE)
    [] n = 11 -> AddMissing(ref, "pii", "pii", FindPii, FALSE)
    [] n = 12 -> AddMissing(ref, "pii", "other", FindPiiOther, FALSE)
    [] n = 13 -> AddFirst(ref, "other", FindWos, TRUE)
    [] n = 14 -> AddMissing(ref, "doi", "doi", FindDoi, FALSE)
RECURSIVE FixFrom(_, _)
FixFrom(ref, n) == IF n > NSteps THEN ref ELSE FixFrom(Step(ref, n), n + 1)
Fix(ref) == FixFrom(Each(ref, Tidy), 1)

--------------------------------------------------------------------------------
(* what fixing guarantees *)
TextOf(ref) == Flat([c \in 1..Len(ref) |-> Flat([j \in 1..Len(ref[c].items) |-> ref[c].items[j].x])])
AllDigit(s) == s # <<>> /\ \A j \in 1..Len(s) : s[j] \in Digit
Proper(it) ==
  CASE it.x = <<>> -> TRUE
    [] it.k = "doi" -> IsDoiAt(it.x, 1) /\ it.x[Len(it.x)] \notin White
    [] it.k = "pmid" -> AllDigit(it.x) /\ Len(it.x) <= 10
    [] it.k = "pmcid" -> Len(it.x) > 3 /\ Low(Cut(it.x, 1, 3)) = <<"p", "m", "c">> /\ AllDigit(FromTo(it.x, 4))
    [] it.k = "pii" -> it.x[1] \in {"S", "B"} /\ Cardinality({j \in 1..Len(it.x) : it.x[j] \in Digit \cup {"x", "X"}}) >= 16
    [] OTHER -> TRUE
ProperIds(ref) == \A c \in 1..Len(ref) : \A j \in 1..Len(ref[c].items) : Proper(ref[c].items[j])
(* the elements that are never added or dropped *)
Others(ref) == [c \in 1..Len(ref) |->
  LET its == ref[c].items
      keep == SelectSeq(its, LAMBDA it : it.k \notin {"text", "doi", "pmid", "pmcid", "pii", "other", "link"})
  IN [j \in 1..Len(keep) |-> keep[j].k]]
=============================================================================
