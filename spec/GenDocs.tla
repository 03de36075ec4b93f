------------------------------- MODULE GenDocs -------------------------------
(* Enumerates all small token documents: sequences of at most MaxTok tokens, each *)
(* with one of the given tag combinations, with any line breaks and blanks        *)
(* between them, and every choice of configuration in Cfgs.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxTok, Kinds
(* g: how the token is separated from the one before it: "n" nothing (joined by a *)
(* punctuation-free boundary), "s" blank, "l" line break                           *)
Combos == CASE Kinds = "tags" -> {"", "b-A", "i-A", "b-B", "pA", "pB"}
            [] Kinds = "plain" -> {"", "b-A", "i-B"}
            [] Kinds = "subs" -> {"", "A", "A/S", "A/T", "pA/pS", "/S"}
Gaps == {"s", "l"}
VARIABLE done
Tokens == [g : Gaps, c : Combos]
Docs == UNION {{d \in [1..n -> Tokens] : d[1].g = "s"} : n \in 1..MaxTok}
GInit == done = FALSE
GNext == /\ ~done /\ done' = TRUE
         /\ JsonSerialize(IOEnv.OUT, SetToSeq(Docs))
=============================================================================
