------------------------------ MODULE TraceDoc ------------------------------
(* Judges recorded executions: load a training document, apply a script of tag   *)
(* changes, save it; then load and save the result again without any change.     *)
EXTENDS TeiDoc, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

Opt(r) == [preserve |-> r.opt.preserve, fields |-> Range1(r.opt.fields),
           always |-> Range1(r.opt.always), preserveSub |-> r.opt.preserveSub,
           noPreserveSub |-> Range1(r.opt.noPreserveSub)]

ApplyOp(doc, op) ==
  CASE op[1] = "set" -> SetMain(doc, op[2], op[3], op[4])
    [] op[1] = "setsub" -> SetSub(doc, op[2], op[3], op[4])
    [] op[1] = "only" -> SetMainOnly(doc, op[2], op[3], op[4])
    [] op[1] = "subonly" -> SetSubOnly(doc, op[2], op[3], op[4])

(* annotations of one level do not nest in each other *)
FlatTags(doc, Paths) ==
  LET toks == Range1(Solid(doc))
      ps == {MainPath(tok, Paths) : tok \in toks}
      ss == {ReqPath(tok, Paths) : tok \in {t \in toks : HasSub(t, Paths)}}
      Apart(set) == \A p \in set, q \in set : p # q => ~IsPrefixOf(p, q)
  IN Apart(ps) /\ Apart(ss)

Clauses(r) ==
  [text |-> TextOfEvents(r.out) = TextOfItems(r.src),
   alltext |-> r.srcText = r.outText,
   outer |-> r.outer0 = r.outer1,
   lines |-> LinesOfEvents(r.out) = LinesOfEvents(r.srcEv),
   prepared |-> r.entry = Prepared(r.src, r.mapping, Opt(r)),
   loaded |-> LET l == Load(r.src, r.mapping, TRUE)
              IN (r.opt.preserve /\ r.opt.preserveSub /\ r.opt.fields = <<>>
                  /\ r.opt.always = <<>> /\ r.opt.noPreserveSub = <<>>) => r.entry = l,
   ops |-> r.after = FoldLeft(ApplyOp, r.entry, r.ops),
   elements |-> InMappedElements(r.after, r.out, r.paths),
   begins |-> BeginsNewElement(r.after, r.out, r.paths),
   continues |-> ContinuesElement(r.after, r.out, r.paths),
   written |-> r.out = Write(r.after, r.paths),
   reread |-> TextOfEvents(r.out2) = TextOfEvents(r.out)
              /\ LinesOfEvents(r.out2) = LinesOfEvents(r.out),
   stable |-> (r.flat /\ FlatTags(r.after, r.paths)) => Annotations(r.out2) = Annotations(r.out)]

Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}

JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
