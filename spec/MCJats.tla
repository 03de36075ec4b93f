-------------------------------- MODULE MCJats --------------------------------
(* The fixing of a reference as a state machine: one of its steps after the other, *)
(* on all references of at most MaxItems pieces of a catalogue.                    *)
EXTENDS Jats, TLC

CONSTANTS MaxItems
VARIABLES ref0, ref, n
vars == <<ref0, ref, n>>

Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]
P(k, s) == [k |-> k, x |-> Chars(s), href |-> <<>>]
L(s, h) == [k |-> "link", x |-> Chars(s), href |-> Chars(h)]
Catalogue ==
  {P("text", s) : s \in {"a, ", "doi: 10.1234/ab.", " 10.1234/c]; ", "https://doi.org/", "PMID: 123 ", "PMC99.",
                         "S0140-6736(05)66783-1", "abc1 [pii] ", "WOS:000123456789012 "}}
  \cup {P("doi", s) : s \in {"", "x", "10.1234/ab", "doi:10.1234/c ;", "10.1234/d. PMID: 5"}}
  \cup {P("pmid", s) : s \in {"PMID: 123", "x"}} \cup {P("pmcid", s) : s \in {"PMC99", "99"}}
  \cup {P("pii", s) : s \in {"S0140-6736(05)66783-1", "12"}}
  \cup {P("comment", s) : s \in {"PMID: 77; PMC7", "x"}}
  \cup {P("title", s) : s \in {"T", "\"T\"", "\"T", "T,"}}
  \cup {L("http://a.b/", "http://a.b/"), L("http://ahttp://b", "http://ahttp://b"), L("x. ", "x. ")}
Contents == UNION {[1..m -> Catalogue] : m \in 1..MaxItems}

Init == \E its \in Contents, mx \in BOOLEAN :
          ref0 = <<[mixed |-> mx, items |-> its]>> /\ ref = Each(ref0, Tidy) /\ n = 1
Work == n <= NSteps /\ ref' = Step(ref, n) /\ n' = n + 1 /\ UNCHANGED ref0
Done == n > NSteps /\ UNCHANGED vars
Next == Work \/ Done

TextKept == TextOf(ref) = TextOf(ref0)
ExactIds == n > NSteps => ProperIds(ref)
OthersKept == Others(ref) = Others(Each(ref0, Tidy))
OneFix == n > NSteps => ref = Fix(ref0)
Count(r, k) == Cardinality({<<c, j>> \in UNION {{c2} \X (1..Len(r[c2].items)) : c2 \in 1..Len(r)} :
                            r[c].items[j].k = k})
(* a step adds at most one identifier of a kind, and only if there was none, and it is found in a mixed citation *)
FewAdded == \A k \in {"doi", "pmid", "pmcid", "pii"} :
              Count(ref, k) > Count(ref0, k) => Count(ref, k) = 1 /\ ref[1].mixed
=============================================================================
