------------------------------- MODULE Tools -------------------------------
(* The eight annotation tools as a whole: what document a command line stands for. *)
(* A tool loads the annotated part of a training file, keeps the existing mark-up   *)
(* its options ask for, labels the text that spells the fields of the article, runs *)
(* its post-processing steps and writes the labels as TEI elements.                 *)
(*                                                                                 *)
(* tool     one of ToolNames                                                        *)
(* opt      the options: fields, subFields [how: "default"|"set"|"plus"|"minus",     *)
(*          vals]; always, noKeepSub, noKeepFields: sequences of values; noKeep,     *)
(*          segment, keepSub, removeInvalid, idno, noExtend, prev, next, noMergeRef, *)
(*          lineNumbers: flags; look: number of lines searched at a time;            *)
(*          known: the fields of the mapping; ln [min, gap, ratio]; seg [map, frontMax, headMax]                       *)
(* attrs    text of a token -> [w, n, d, cs, cl]: the word it spells, see Matching,  *)
(*          PostProc and Reference                                                  *)
EXTENDS Reference

ToolNames == {"header", "segmentation", "fulltext", "figure", "table", "reference",
              "reference_segmenter", "affiliation"}

(******************************* what a tool knows ******************************)
Other == "note[@type=\"other\"]"
Xref == << <<"xref-bib", "ref[@type=\"biblio\"]">>, <<"xref-figure", "ref[@type=\"figure\"]">>,
           <<"xref-table", "ref[@type=\"table\"]">>, <<"xref-formula", "ref[@type=\"formula\"]">>,
           <<"xref-section", "ref[@type=\"section\"]">>, <<"xref-box", "ref[@type=\"box\"]">> >>
XrefsOf(field, path) == [k \in 1..Len(Xref) |-> <<field \o "-" \o Xref[k][1], path \o "/" \o Xref[k][2]>>]
IdNo(kind, name) == <<"reference-" \o kind, "bibl/idno[@type=\"" \o name \o "\"]">>
Scope(kind) == <<"reference-" \o kind, "bibl/biblScope[@unit=\"" \o kind \o "\"]">>

(* the element a label is written as; "": text without label *)
Table(tool) ==
  CASE tool = "header" ->
         << <<"", Other>>, <<"title", "docTitle/titlePart">>, <<"abstract", "div[@type=\"abstract\"]">>,
            <<"author", "byline/docAuthor">>, <<"author_aff", "byline/affiliation">>,
            <<"line_no", "note[@type=\"line_no\"]">> >>
    [] tool = "segmentation" ->
         << <<"", "body">>, <<"body", "body">>, <<"headnote", "note[@place=\"headnote\"]">>,
            <<"acknowledgment", "div[@type=\"acknowledgment\"]">>, <<"annex", "div[@type=\"annex\"]">>,
            <<"page", "page">>, <<"line_no", "note[@type=\"line_no\"]">>, <<"reference", "listBibl">> >>
    [] tool = "fulltext" ->
         << <<"", "other">>, <<"note_other", Other>>, <<"keywords", "other[@type=\"keywords\"]">>,
            <<"section_title", "head">>, <<"section_paragraph", "p">> >>
         \o XrefsOf("section_paragraph", "p")
         \o << <<"figure", "figure">>, <<"table", "figure[@type=\"table\"]">>,
               <<"reference_list_title", "other[@type=\"ref-list-title\"]">>,
               <<"appendix_group_title", "head[@type=\"appendix-group\"]">>,
               <<"appendix", "figure[@xtype=\"appendix\"]">>, <<"boxed_text_title", "head[@type=\"box\"]">>,
               <<"boxed_text_paragraph", "p[@type=\"box\"]">> >>
         \o XrefsOf("boxed_text_paragraph", "p[@type=\"box\"]")
         \o << <<"list", "list">>, <<"list_item", "list/item">> >>
         \o XrefsOf("list_item", "list/item")
    [] tool = "figure" ->
         << <<"", Other>>, <<"figure", "figure">>, <<"figure-label", "figure/head/label">>,
            <<"figure-caption", "figure/figDesc">> >>
    [] tool = "table" ->
         << <<"", Other>>, <<"table", "figure[@type=\"table\"]">>,
            <<"table-label", "figure[@type=\"table\"]/head/label">>,
            <<"table-caption", "figure[@type=\"table\"]/figDesc">> >>
    [] tool = "reference" ->
         << <<"", Other>>, <<"reference", "bibl">>, <<"reference-label", "bibl/label">>,
            <<"reference-author", "bibl/author">>, <<"reference-editor", "bibl/editor">>,
            <<"reference-year", "bibl/date">>, <<"reference-article-title", "bibl/title[@level=\"a\"]">>,
            <<"reference-source", "bibl/title[@level=\"j\"]">>,
            <<"reference-publisher-name", "bibl/publisher">>, <<"reference-publisher-loc", "bibl/pubPlace">>,
            Scope("volume"), Scope("issue"), Scope("page"),
            IdNo("issn", "ISSN"), IdNo("isbn", "ISBN"), IdNo("doi", "DOI"), IdNo("pii", "PII"),
            IdNo("pmid", "PMID"), IdNo("pmcid", "PMC"), IdNo("arxiv", "arxiv"),
            <<"ext-link", "bibl/ptr[@type=\"web\"]">> >>
    [] tool = "reference_segmenter" ->
         << <<"", Other>>, <<"reference", "listBibl/bibl">>, <<"reference-label", "listBibl/bibl/label">> >>
    [] tool = "affiliation" ->
         << <<"", Other>>, <<"author_aff", "affiliation">>, <<"author_aff-label", "affiliation/marker">>,
            <<"author_aff-department", "affiliation/orgName[@type=\"department\"]">>,
            <<"author_aff-institution", "affiliation/orgName[@type=\"institution\"]">>,
            <<"author_aff-address", "affiliation/address">>,
            <<"author_aff-address-city", "affiliation/address/settlement">>,
            <<"author_aff-address-postcode", "affiliation/address/postCode">>,
            <<"author_aff-address-state", "affiliation/address/region">>,
            <<"author_aff-address-country", "affiliation/address/country">> >>

DefaultFields(tool) ==
  CASE tool = "header" -> {}            \* all fields of the mapping
    [] tool = "segmentation" ->
         {"title", "abstract", "keywords_title", "keywords", "manuscript_type", "author", "author_aff",
          "author_notes", "body_section_title", "body_section_paragraph", "body_figure", "body_table",
          "back_section_title", "back_section_paragraph", "back_figure", "back_table",
          "acknowledgment_section_title", "acknowledgment_section_paragraph", "appendix_group_title",
          "appendix", "reference_list_title", "reference"}
    [] tool = "fulltext" ->
         {"keywords", "section_title", "section_paragraph", "boxed_text_title", "boxed_text_paragraph",
          "list", "list_item", "appendix_group_title", "appendix", "figure", "table",
          "reference_list_title"}
    [] tool \in {"figure", "table"} -> {tool}
    [] tool \in {"reference", "reference_segmenter"} -> {"reference"}
    [] tool = "affiliation" -> {"author_aff"}
DefaultSubFields(tool) ==               \* {}: all sub fields of the mapping
  IF tool = "fulltext" THEN {Table(tool)[k][1] : k \in 1..Len(Table(tool))} ELSE {}
Chosen(choice, dflt) ==
  CASE choice.how = "default" -> dflt
    [] choice.how = "set" -> Range1(choice.vals)
    [] choice.how = "plus" -> dflt \cup Range1(choice.vals)
    [] choice.how = "minus" -> dflt \ Range1(choice.vals)
Fields(tool, opt) == Chosen(opt.fields, DefaultFields(tool))
SubFields(tool, opt) ==
  IF tool \in {"fulltext", "figure", "table", "affiliation"}
  THEN Chosen(opt.subFields, DefaultSubFields(tool)) ELSE {}

(* tools that look inside of existing elements and leave those as they are, *)
(* unless asked to find the elements themselves *)
Inner(tool) == tool \in {"figure", "table", "reference", "affiliation"}
WholeField(tool) == CHOOSE f \in DefaultFields(tool) : TRUE
Splits(tool, opt) == ~Inner(tool) \/ opt.segment

(* the table with what the options add: fields without an element of their own *)
AllFields(tool, opt) ==
  IF Fields(tool, opt) # {} THEN Fields(tool, opt) ELSE Range1(opt.known)
ElementOf(tool, opt, v) ==
  IF Mapped(Table(tool), v) THEN Fn(Table(tool), v, "")
  ELSE IF tool # "segmentation" /\ v \in AllFields(tool, opt)
       THEN "note[@type=\"" \o v \o "\"]"
  ELSE v
Mapping(tool, opt) ==
  LET extra == IF tool = "segmentation" THEN {}
               ELSE {f \in AllFields(tool, opt) : ~Mapped(Table(tool), f)}
  IN Table(tool) \o [k \in 1..Cardinality(extra) |->
       LET f == SetToSeq(extra)[k] IN <<f, ElementOf(tool, opt, f)>>]

(******************************** the document in *******************************)
KeepOpt(tool, opt) ==
  [preserve |-> ~opt.noKeep,
   fields |-> IF tool = "segmentation" THEN Range1(opt.noKeepFields) ELSE Fields(tool, opt),
   always |-> IF Splits(tool, opt) THEN Range1(opt.always) ELSE {WholeField(tool)},
   preserveSub |-> tool \in {"figure", "table", "affiliation"} /\ opt.keepSub,
   noPreserveSub |-> IF tool \in {"figure", "table", "affiliation"} THEN Range1(opt.noKeepSub) ELSE {}]
NoAttr == [w |-> 0, n |-> -1, d |-> FALSE, cs |-> <<"?">>, cl |-> <<"w">>]
WithAttrs(doc, attrs) ==
  MapTokens(doc, LAMBDA tok :
    LET a == IF tok.x \in DOMAIN attrs THEN attrs[tok.x] ELSE NoAttr
    IN [x |-> tok.x, sp |-> tok.sp, t |-> tok.t, s |-> tok.s, pt |-> tok.pt, ps |-> tok.ps,
        w |-> a.w, n |-> a.n, d |-> a.d, cs |-> a.cs, cl |-> a.cl,
        wn |-> IF tok.w = NoSpaceInfo THEN -1 ELSE Len(tok.w)])
Entry(tool, opt, items, attrs) ==
  WithAttrs(Prepared(items, Mapping(tool, opt), KeepOpt(tool, opt)), attrs)

(******************************* what is searched for ***************************)
Wanted(tool, opt, targets) ==
  LET fs == Fields(tool, opt) ss == SubFields(tool, opt)
      ts == SelectSeq(targets, LAMBDA t : fs = {} \/ t.name \in fs)
  IN [k \in 1..Len(ts) |->
       [ts[k] EXCEPT !.subs = SelectSeq(@, LAMBDA s : ss = {} \/ s.name \in ss)]]
MatchCfg(tool, opt, tags, len) ==
  [look |-> opt.look, begin |-> TRUE,
   extend |-> CASE tool = "fulltext" -> ~opt.noExtend [] Inner(tool) -> FALSE [] OTHER -> TRUE,
   subs |-> tool \notin {"header", "segmentation"},
   keep |-> tool \in {"fulltext", "figure", "table", "affiliation"},
   len |-> len, tags |-> tags]

(************************************ the steps *********************************)
HasPart(s, part) == \E k \in 1..(Len(s) - Len(part) + 1) : SubSeq(s, k, k + Len(part) - 1) = part
SubValues(doc) == {Val(Sub(tok)) : tok \in Range1(Flat(doc))} \ {""}
AddressGroup(doc) ==
  LET vs == {v \in SubValues(doc) : HasPart(v, "address")}
  IN [k \in 1..Cardinality(vs) |-> <<SetToSeq(vs)[k], "author_aff-address">>]
IdNos == <<"reference-issn", "reference-isbn", "reference-doi", "reference-pii", "reference-pmid",
           "reference-pmcid", "reference-arxiv">>
TidyCfg(opt) ==
  LET names == <<"reference-author", "reference-editor">>
  IN [map |-> << <<"reference-fpage", "reference-page">>, <<"reference-lpage", "reference-page">> >>,
      merge |-> names \o <<"reference-issue", "reference-page">>,
      prefix |-> IF opt.idno THEN IdNos ELSE <<>>, suffix |-> names,
      etal |-> "reference-etal", etals |-> names,
      words |-> << <<"reference-doi", <<"d", "o", "i">> >>, <<"reference-pii", <<"p", "i", "i">> >> >>]
LineNumberStep(doc, opt) ==
  IF ~opt.lineNumbers THEN doc
  ELSE AnnotateLineNumbers(doc, [min |-> opt.ln.min, gap |-> opt.ln.gap, ratio |-> opt.ln.ratio,
                                 tag |-> "line_no"])
MatchStep(tool, opt, doc, targets, cfg) ==
  IF Splits(tool, opt) THEN Annotate(doc, targets, cfg) ELSE AnnotateSubs(doc, targets, cfg)
Drop(doc, opt) == IF opt.removeInvalid THEN RemoveUntagged(doc) ELSE doc
PostSteps(tool, opt, doc) ==
  CASE tool = "fulltext" ->
         LET d1 == ReplaceTags(doc, << <<"note_other", "">>, <<Other, "">> >>)
             d2 == MergeGroups(d1, << <<"list_item", "list">> >>, 1)
             d3 == IF opt.prev THEN ExpandPrevious(d2, {"figure", "table"}) ELSE d2
         IN IF opt.next THEN ExpandFollowing(d3, {"figure", "table"}) ELSE d3
    [] tool = "reference" -> Drop(Tidy(doc, TidyCfg(opt)), opt)
    [] tool = "affiliation" -> LET d == Drop(doc, opt) IN MergeGroups(d, AddressGroup(d), 2)
    [] tool = "segmentation" ->
         Segment(doc, [map |-> opt.seg.map, frontMax |-> opt.seg.frontMax, headMax |-> opt.seg.headMax,
                       noMergeRef |-> opt.noMergeRef, preserve |-> ~opt.noKeep])
    [] OTHER -> doc

Labelled(tool, opt, targets, tags, len, items, attrs) ==
  LET d0 == Entry(tool, opt, items, attrs)
      d1 == IF tool \in {"header", "segmentation", "reference_segmenter"}
            THEN LineNumberStep(d0, opt) ELSE d0
      wanted == Wanted(tool, opt, targets)
      names == Names(wanted)
      cfg == MatchCfg(tool, opt, SelectSeq(tags, LAMBDA p : Fields(tool, opt) = {} \/ p[1] \in Fields(tool, opt)),
                      len)
  IN PostSteps(tool, opt, MatchStep(tool, opt, d1, wanted, cfg))

(******************************** the document out ******************************)
RECURSIVE SplitPath(_, _)
SplitPath(s, from) ==
  LET at == {k \in from..Len(s) : SubSeq(s, k, k) = "/"}
  IN IF s = "" THEN <<>>
     ELSE IF at = {} THEN <<SubSeq(s, from, Len(s))>>
     ELSE LET k == CHOOSE k \in at : \A j \in at : k <= j
          IN <<SubSeq(s, from, k - 1)>> \o SplitPath(s, k + 1)
ValuesOf(doc) == UNION {{Val(tok.t), Val(tok.s), Val(tok.pt), Val(tok.ps)} : tok \in Range1(Flat(doc))}
PathsOf(tool, opt, doc) ==
  [v \in ValuesOf(doc) \cup {""} |-> SplitPath(ElementOf(tool, opt, v), 1)]
Output(tool, opt, targets, tags, len, items, attrs) ==
  LET doc == Labelled(tool, opt, targets, tags, len, items, attrs)
  IN Write(doc, PathsOf(tool, opt, doc))

(******************* what it is for, independent of how it is done ***************)
(* the non-blank texts of the outermost elements of a kind (without empty ones) *)
TopTexts(ev, expr) ==
  LET Step(a, e) ==
        CASE e[1] = "o" -> [a EXCEPT !.path = Append(a.path, e[2]),
                                     !.out = IF a.path = <<>> /\ e[2] = expr THEN Append(a.out, "") ELSE a.out]
          [] e[1] = "c" -> [a EXCEPT !.path = Front(a.path)]
          [] e[1] = "t" /\ a.path # <<>> /\ a.path[1] = expr ->
               [a EXCEPT !.out = Append(Front(a.out), Last1(a.out) \o e[2])]
          [] OTHER -> a
  IN SelectSeq(FoldLeft(Step, [path |-> <<>>, out |-> <<>>], ev).out, LAMBDA x : x # "")
(* a tool that looks inside of elements leaves these as they are *)
InnerKept(tool, opt, before, after) ==
  ~Splits(tool, opt) =>
    LET expr == Fn(Table(tool), WholeField(tool), "")
    IN TopTexts(after, expr) = TopTexts(before, expr)
(* nothing is written but the elements of the tool's table, of asked for fields, of line  *)
(* numbers and segments, and elements that were there before                              *)
Opened(ev) == {ev[k][2] : k \in {j \in 1..Len(ev) : ev[j][1] = "o"}}
OnlyKnown(tool, opt, before, after) ==
  Opened(after) \subseteq
    Opened(before)
    \cup UNION {Range1(SplitPath(Table(tool)[k][2], 1)) : k \in 1..Len(Table(tool))}
    \cup {ElementOf(tool, opt, f) : f \in AllFields(tool, opt)}
    \cup (IF opt.lineNumbers THEN {"line_no"} ELSE {})
    \cup {opt.seg.map[k][2] : k \in 1..Len(opt.seg.map)}
    \cup (IF tool = "segmentation" THEN {"front"} ELSE {})
(* every text outside of the elements of labels is in the element for text without label  *)
AllWrapped(tool, after) ==
  \A k \in 1..Len(Chains(after)) : Chains(after)[k].names # <<>>
(* existing elements of fields to always preserve stay around their text                  *)
CharPaths(ev) ==   \* for every non-blank character the names of the elements around it
  LET ch == Chains(ev)
  IN Flat([k \in 1..Len(ch) |-> [j \in 1..Len(ch[k].x) |-> ch[k].names]])
ElementsKept(tool, opt, before, after) ==
  (tool # "segmentation" /\ ~opt.removeInvalid /\ ~opt.lineNumbers) =>
    LET keep == KeepOpt(tool, opt)
        labels == {v \in {Table(tool)[k][1] : k \in 1..Len(Table(tool))} \ {""} :
                     v \in keep.always /\ v # "note_other"}
        \* elements of their own (text next to titlePart makes all of docTitle another element)
        tops == {v \in labels : Len(SplitPath(Fn(Table(tool), v, ""), 1)) = 1}
        a == CharPaths(before) b == CharPaths(after)
    IN /\ Len(a) = Len(b)
       /\ \A v \in tops, k \in 1..Len(a) :
            LET q == SplitPath(Fn(Table(tool), v, ""), 1)
                starts(x) == Len(x) >= Len(q) /\ SubSeq(x, 1, Len(q)) = q
            IN a[k] = q => starts(b[k])
=============================================================================
