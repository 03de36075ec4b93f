---- MODULE Article ----
(* Where the parts of an article belong in the training data of each tool, *)
(* given the configuration that comes with the tools.                      *)
(*                                                                         *)
(* An article is a sequence of parts. A part has a role (what it is in the *)
(* article: its title, one of its affiliations, a paragraph of a section,  *)
(* a reference ...) and consists of words, each of which may have a sub    *)
(* role (the country of an affiliation, the journal of a reference, a      *)
(* citation in a paragraph ...). Text that is not a part of the article    *)
(* (what the publisher printed around it) has the role Filler.             *)
(*                                                                         *)
(* Place(tool, role, sub) is the path of elements around a word in what    *)
(* the tool writes. Unit(tool, role) says how many of them the words of    *)
(* one part have in common with each other and with no other part; 0 when  *)
(* the tool does not tell the parts from each other.                       *)
EXTENDS Naturals, Sequences, FiniteSets

Filler == ""

HeaderNotes == {"author_notes", "copyright_statement", "doi", "journal", "keywords", "keywords_title"}

FrontRoles == {"title", "abstract", "keywords", "keywords_title", "author", "author_aff", "author_notes"}

BackRoles == {"back_section_title", "back_section_paragraph", "note", "appendix_group_title", "appendix",
              "back_figure", "back_table"}

AckRoles == {"acknowledgment_section_title", "acknowledgment_section_paragraph"}

RefRoles == {"reference", "reference_list_title"}

TitleRoles == {"body_section_title", "back_section_title", "acknowledgment_section_title"}

ParagraphRoles == {"body_section_paragraph", "back_section_paragraph", "acknowledgment_section_paragraph"}

(* a citation of something *)
Citation(sub) ==
  CASE sub = "xref-bib"     -> <<"ref[@type=\"biblio\"]">>
    [] sub = "xref-figure"  -> <<"ref[@type=\"figure\"]">>
    [] sub = "xref-table"   -> <<"ref[@type=\"table\"]">>
    [] sub = "xref-formula" -> <<"ref[@type=\"formula\"]">>
    [] sub = "xref-section" -> <<"ref[@type=\"section\"]">>
    [] sub = "xref-box"     -> <<"ref[@type=\"box\"]">>
    [] OTHER -> <<>>

(* label and caption of a figure or table *)
Caption(sub) ==
  CASE sub = "label"   -> <<"head", "label">>
    [] sub = "caption" -> <<"figDesc">>
    [] OTHER -> <<>>

Affiliation(sub) ==
  CASE sub = "label"       -> <<"marker">>
    [] sub = "department"  -> <<"orgName[@type=\"department\"]">>
    [] sub = "institution" -> <<"orgName[@type=\"institution\"]">>
    [] sub = "city"        -> <<"address", "settlement">>
    [] sub = "state"       -> <<"address", "region">>
    [] sub = "postcode"    -> <<"address", "postCode">>
    [] sub = "country"     -> <<"address", "country">>
    [] sub = "address"     -> <<"address">>
    [] OTHER -> <<>>

Reference(sub) ==
  CASE sub = "label"             -> <<"label">>
    [] sub \in {"author", "etal"} -> <<"author">>
    [] sub = "editor"            -> <<"editor">>
    [] sub = "year"              -> <<"date">>
    [] sub = "article-title"     -> <<"title[@level=\"a\"]">>
    [] sub = "source"            -> <<"title[@level=\"j\"]">>
    [] sub = "volume"            -> <<"biblScope[@unit=\"volume\"]">>
    [] sub = "issue"             -> <<"biblScope[@unit=\"issue\"]">>
    [] sub \in {"fpage", "lpage"} -> <<"biblScope[@unit=\"page\"]">>
    [] sub = "publisher-name"    -> <<"publisher">>
    [] sub = "publisher-loc"     -> <<"pubPlace">>
    [] sub = "doi"               -> <<"idno[@type=\"DOI\"]">>
    [] sub = "pmid"              -> <<"idno[@type=\"PMID\"]">>
    [] sub = "isbn"              -> <<"idno[@type=\"ISBN\"]">>
    [] sub = "issn"              -> <<"idno[@type=\"ISSN\"]">>
    [] sub = "pii"               -> <<"idno[@type=\"PII\"]">>
    [] sub = "pmcid"             -> <<"idno[@type=\"PMC\"]">>
    [] sub = "arxiv"             -> <<"idno[@type=\"arxiv\"]">>
    [] sub = "ext-link"          -> <<"ptr[@type=\"web\"]">>
    [] OTHER -> <<>>

OtherNote == <<"note[@type=\"other\"]">>

HeaderPlace(role) ==
  CASE role = "title"       -> <<"docTitle", "titlePart">>
    [] role = "author"      -> <<"byline", "docAuthor">>
    [] role = "author_aff"  -> <<"byline", "affiliation">>
    [] role = "abstract"    -> <<"div[@type=\"abstract\"]">>
    [] role \in HeaderNotes -> << "note[@type=\"" \o role \o "\"]" >>
    [] OTHER -> OtherNote

(* what is not known to belong elsewhere is the body *)
SegmentationPlace(role) ==
  CASE role \in FrontRoles -> <<"front">>
    [] role \in AckRoles   -> <<"div[@type=\"acknowledgment\"]">>
    [] role \in BackRoles  -> <<"div[@type=\"annex\"]">>
    [] role \in RefRoles   -> <<"listBibl">>
    [] OTHER -> <<"body">>

FulltextPlace(role, sub) ==
  CASE role \in TitleRoles             -> <<"head">>
    [] role \in ParagraphRoles         -> <<"p">> \o Citation(sub)
    [] role = "boxed_text_title"       -> <<"head[@type=\"box\"]">>
    [] role = "boxed_text_paragraph"   -> <<"p[@type=\"box\"]">> \o Citation(sub)
    [] role = "list_item"              -> <<"list", "item">> \o Citation(sub)
    [] role = "list"                   -> <<"list">>
    [] role = "figure"                 -> <<"figure">>
    [] role = "table"                  -> <<"figure[@type=\"table\"]">>
    [] role = "keywords"               -> <<"other[@type=\"keywords\"]">>
    [] role = "appendix_group_title"   -> <<"head[@type=\"appendix-group\"]">>
    [] role = "appendix"               -> <<"figure[@xtype=\"appendix\"]">>
    [] role = "reference_list_title"   -> <<"other[@type=\"ref-list-title\"]">>
    [] OTHER -> <<"other">>

Place(tool, role, sub) ==
  CASE tool = "header"       -> HeaderPlace(role)
    [] tool = "segmentation" -> SegmentationPlace(role)
    [] tool = "fulltext"     -> FulltextPlace(role, sub)
    [] role = Filler         -> OtherNote
    [] tool = "figure"       -> <<"figure">> \o Caption(sub)
    [] tool = "table"        -> <<"figure[@type=\"table\"]">> \o Caption(sub)
    [] tool = "affiliation"  -> <<"affiliation">> \o Affiliation(sub)
    [] tool = "reference"    -> <<"bibl">> \o Reference(sub)
    [] tool = "reference_segmenter" ->
         IF sub = "label" THEN <<"listBibl", "bibl", "label">> ELSE <<"listBibl", "bibl">>

Unit(tool, role) ==
  CASE tool = "segmentation" \/ role = Filler -> 0
    [] tool = "header" /\ role = "handling_editor" -> 0     \* written as other text
    [] tool = "fulltext" /\ role = "note" -> 0              \* written as other text
    [] tool = "header" /\ role \in {"title", "author", "author_aff"} -> 2
    [] tool = "fulltext" /\ role = "list_item" -> 2
    [] tool = "reference_segmenter" -> 2
    [] OTHER -> 1

(* ------------------------------------------------------------------------ *)
(* parts: sequence of [role, tokens, subs]; texts: the words of the output, *)
(* each with the names of the elements around it and what tells them apart  *)

(* text that is not looked for *)
Unknown(tool, role) ==
  \/ role = Filler
  \/ tool = "segmentation" /\ role \in {"journal", "doi", "copyright_statement", "handling_editor", "boxed_text_title", "list"}
  \/ tool = "fulltext" /\ role = "note"

(* the roles of the parts before and after part k, without what is not known *)
Before(tool, parts, k) ==
  LET at == {j \in 1..(k - 1): ~Unknown(tool, parts[j].role)} IN
  IF at = {} THEN Filler ELSE parts[CHOOSE j \in at: \A m \in at: m <= j].role

After(tool, parts, k) ==
  LET at == {j \in (k + 1)..Len(parts): ~Unknown(tool, parts[j].role)} IN
  IF at = {} THEN Filler ELSE parts[CHOOSE j \in at: \A m \in at: j <= m].role

(* the role text has because of what is around it *)
RoleAt(tool, parts, k) ==
  LET role == parts[k].role
      before == Before(tool, parts, k)
      after == After(tool, parts, k)
  IN CASE ~Unknown(tool, role) -> role
       [] tool = "segmentation" ->
            \* what is printed among the front matter, the references or the appendices
            \* belongs to them, and so does what is before the front matter or follows the appendices
            IF \E rs \in {FrontRoles, RefRoles, BackRoles}: before \in rs /\ after \in rs
            THEN before
            ELSE IF before \in BackRoles /\ after = Filler THEN before
            ELSE IF before = Filler /\ after \in FrontRoles THEN after
            ELSE role
       \* what follows the item of a list is a part of the list
       [] tool = "fulltext" /\ before = "list_item" -> "list"
       [] OTHER -> role

(* text between the parts of an address is a part of the address *)
AddressSubs == {"city", "state", "postcode", "country"}

SubAt(tool, subs, n) ==
  LET at == {j \in 1..n: subs[j] # "text"}
      last == IF at = {} THEN "" ELSE subs[CHOOSE j \in at: \A m \in at: m <= j]
  IN IF subs[n] = "text" /\ last \in AddressSubs THEN "address" ELSE subs[n]

RECURSIVE WordsFrom(_, _, _)
WordsFrom(tool, parts, k) ==
  IF k > Len(parts) THEN <<>>
  ELSE LET p == parts[k]
           role == RoleAt(tool, parts, k)
           subOf(n) == SubAt(tool, p.subs, n)
           unit == Unit(tool, p.role)
       IN [n \in 1..Len(p.tokens) |-> [x |-> p.tokens[n], sub |-> p.subs[n], part |-> k, unit |-> unit,
                                       place |-> Place(tool, role, subOf(n))]]
          \o WordsFrom(tool, parts, k + 1)

WordsOf(tool, parts) == WordsFrom(tool, parts, 1)

(* nothing is lost, added or moved *)
Kept(ws, texts) ==
  /\ Len(ws) = Len(texts)
  /\ \A k \in 1..Len(ws): ws[k].x = texts[k].x

(* every word is where it belongs *)
Placed(ws, texts) == \A k \in 1..Len(ws): texts[k].names = ws[k].place

Shared(s, t) == CHOOSE n \in 0..Len(s): /\ n <= Len(t)
                                        /\ \A j \in 1..n: s[j] = t[j]
                                        /\ n = Len(s) \/ n = Len(t) \/ s[n + 1] # t[n + 1]

(* a part is one element *)
Together(ws, texts) ==
  \A k \in 2..Len(ws):
    ws[k].part = ws[k - 1].part =>
      LET n == Shared(texts[k - 1].ids, texts[k].ids) IN
      /\ n >= ws[k].unit
      \* and a run of the same kind within it is one as well
      /\ ws[k].sub = ws[k - 1].sub => n = Len(texts[k].ids)

(* and no two parts are the same element *)
Separate(ws, texts) ==
  \A k \in 2..Len(ws):
    ws[k].part # ws[k - 1].part /\ ws[k].unit > 0 => Shared(texts[k - 1].ids, texts[k].ids) < ws[k].unit

====
