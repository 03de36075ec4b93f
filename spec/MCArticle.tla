---- MODULE MCArticle ----
(* A tool that writes the words of an article one after the other, closing   *)
(* and opening elements in between, and the shapes of the articles it is     *)
(* given. What it writes has to satisfy what Article asks for; that there is *)
(* such a tool shows that Article does not ask for the impossible.           *)
EXTENDS Article, SequencesExt, FiniteSetsExt, TLC

CONSTANTS ToolName, MaxParts, MaxSubs

ToolNames == {"header", "segmentation", "fulltext", "figure", "table", "reference",
              "reference_segmenter", "affiliation"}

RefSubs == {"label", "author", "etal", "editor", "year", "article-title", "volume", "issue", "fpage", "publisher-name",
            "publisher-loc", "issn", "isbn", "pii", "pmid", "pmcid", "arxiv", "doi", "ext-link"}

AffSubs == {"label", "department", "text", "city", "state", "postcode", "country"}

Optional == {"handling_editor", "author_notes", "keywords_title", "keywords", "journal", "doi", "copyright_statement"}

Nodes == {"paragraph", "list", "titled-list", "box", "figure", "table", "section"}

Backs == {"ack", "section", "refs", "notes", "appendices"}

(* ------------------------------------------------------------- the shapes *)
NoShape == [subs |-> <<>>, front |-> <<>>, body |-> <<>>, back |-> <<>>]

Small(S, n) == {T \in SUBSET S: Cardinality(T) <= n}

Shapes ==
  CASE ToolName \in {"reference", "reference_segmenter"} ->
         {[NoShape EXCEPT !.subs = SetToSeq(T)]: T \in Small(RefSubs, MaxSubs)}
    [] ToolName = "affiliation" -> {[NoShape EXCEPT !.subs = SetToSeq(T)]: T \in SUBSET AffSubs}
    [] ToolName = "header" -> {[NoShape EXCEPT !.front = SetToSeq(T)]:
                               T \in {U \in SUBSET Optional: "keywords_title" \in U => "keywords" \in U}}
    [] ToolName \in {"figure", "table"} ->
         {[NoShape EXCEPT !.body = [k \in 1..n |-> ToolName]]: n \in 1..MaxParts}
    [] OTHER -> {[NoShape EXCEPT !.body = s, !.back = SetToSeq(T)]:
                 s \in UNION {[1..n -> Nodes]: n \in 1..MaxParts}, T \in SUBSET Backs}

(* ---------------------------------------------------------- the documents *)
Roles ==
  CASE ToolName \in {"figure", "table"} -> {ToolName}
    [] ToolName \in {"reference", "reference_segmenter"} -> {"reference"}
    [] ToolName = "affiliation" -> {"author_aff"}
    [] ToolName = "header" -> HeaderNotes \cup {"title", "author", "author_aff", "abstract"}
    [] ToolName = "segmentation" -> {"title", "author", "journal", "body_section_title", "body_section_paragraph",
                                     "acknowledgment_section_title", "back_section_paragraph", "appendix",
                                     "reference_list_title", "reference"}
    [] ToolName = "fulltext" -> {"keywords", "body_section_title", "body_section_paragraph", "boxed_text_title",
                                 "boxed_text_paragraph", "list", "list_item", "figure", "appendix"}

Subs(role) ==
  CASE ToolName \in {"figure", "table"} -> {"label", "caption"}
    [] ToolName \in {"reference", "reference_segmenter"} -> {"label", "author", "fpage", "lpage"}
    [] ToolName = "affiliation" -> {"label", "institution", "city", "text"}
    [] ToolName = "fulltext" /\ role \in {"body_section_paragraph", "list_item"} -> {"", "xref-bib"}
    [] OTHER -> {""}

Part(role, subs) == [role |-> role, subs |-> subs, tokens |-> [k \in 1..Len(subs) |-> "w"]]

AllParts == {Part(Filler, <<"">>)}
            \cup UNION {{Part(r, s): s \in UNION {[1..n -> Subs(r)]: n \in 1..2}}: r \in Roles}

Documents == UNION {[1..n -> AllParts]: n \in 1..MaxParts}

(* --------------------------------------------------------------- the tool *)
VARIABLES parts, k, open, texts, fresh

vars == <<parts, k, open, texts, fresh>>

Init == parts \in Documents /\ k = 0 /\ open = <<>> /\ texts = <<>> /\ fresh = 0

(* how many of the open elements the next word stays in *)
Stay(ws) ==
  IF k = 0 THEN 0
  ELSE LET w == ws[k + 1] v == ws[k]
           most == IF w.part # v.part /\ w.unit > 0 THEN w.unit - 1 ELSE Len(w.place)
           ok(n) == n <= Len(open) /\ n <= Len(w.place) /\ \A j \in 1..n: v.place[j] = w.place[j]
       IN Max({n \in 0..most: ok(n)})

Write ==
  LET ws == WordsOf(ToolName, parts) IN
  /\ k < Len(ws)
  /\ LET n == Stay(ws)
         new == Len(ws[k + 1].place) - n
     IN /\ open' = SubSeq(open, 1, n) \o [j \in 1..new |-> fresh + j]
        /\ fresh' = fresh + new
  /\ texts' = Append(texts, [x |-> ws[k + 1].x, names |-> ws[k + 1].place, ids |-> open'])
  /\ k' = k + 1
  /\ UNCHANGED parts

Spec == Init /\ [][Write]_vars

(* the element every word is in has the depth its place has *)
Depth == texts # <<>> => Len(open) = Len(texts[Len(texts)].names)

(* a part is never less than an element *)
Units == \A r \in Roles: \A s \in Subs(r): Unit(ToolName, r) <= Len(Place(ToolName, r, s))

Asked ==
  LET ws == WordsOf(ToolName, parts) IN
  k = Len(ws) => Kept(ws, texts) /\ Placed(ws, texts) /\ Together(ws, texts) /\ Separate(ws, texts)

(* what is told apart in the article is told apart in the training data *)
Distinct ==
  ToolName \notin {"segmentation", "fulltext"} =>
    \A r1, r2 \in Roles: \A s1 \in Subs(r1), s2 \in Subs(r2):
      Place(ToolName, r1, s1) = Place(ToolName, r2, s2) =>
        r1 = r2 /\ (s1 = s2 \/ {s1, s2} \subseteq {"fpage", "lpage", "author"})

====
