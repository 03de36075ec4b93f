------------------------------- MODULE TraceTool -------------------------------
(* Judges recorded runs of the annotation tools on whole files.                   *)
EXTENDS Tools, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

Expected(r) == Output(r.tool, r.opt, r.targets, r.tags, r.len, r.src, r.attrs)
Clauses(r) ==
  LET want == Expected(r)
  IN [output |-> r.out = want,
      \* the same without where blanks end up
      elements |-> Shape(r.out) = Shape(want),
      text |-> r.opt.removeInvalid \/ TextOfEvents(r.out) = TextOfItems(r.src),
      inner |-> InnerKept(r.tool, r.opt, r.srcEv, r.out),
      known |-> OnlyKnown(r.tool, r.opt, r.srcEv, r.out),
      kept |-> ElementsKept(r.tool, r.opt, r.srcEv, r.out),
      wrapped |-> AllWrapped(r.tool, r.out),
      outer |-> r.outer0 = r.outer1,
      namespace |-> r.foreign = <<>>]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE IF r.error # "" \/ ~r.saved THEN {"saved"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}

JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
