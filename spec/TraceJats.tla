------------------------------ MODULE TraceJats ------------------------------
EXTENDS Jats, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

(* kind "ref": citations of leaf elements, compared with the specification;       *)
(* kind "tree": any reference, as characters with the elements around them        *)
Same(a, b) == Len(a) = Len(b) /\ \A c \in 1..Len(a) : Tidy(a[c].items) = Tidy(b[c].items)
Clauses(r) ==
  CASE r.kind = "ref" ->
         [exact |-> Same(r.after, Fix(r.before)),
          text |-> TextOf(r.after) = TextOf(r.before),
          proper |-> ProperIds(r.after),
          others |-> Others(r.after) = Others(r.before)]
    [] r.kind = "tree" ->
         [text |-> [k \in 1..Len(r.after) |-> r.after[k].c] = [k \in 1..Len(r.before) |-> r.before[k].c],
          around |-> Len(r.after) = Len(r.before) =>
                       \A k \in 1..Len(r.after) : r.after[k].in = r.before[k].in,
          others |-> r.others2 = r.others1,
          outside |-> r.outside]
    [] r.kind = "files" ->
         [outputs |-> r.outputs = r.expected,
          wellformed |-> \A k \in 1..Len(r.files) : r.files[k].wf,
          outside |-> \A k \in 1..Len(r.files) : r.files[k].outside,
          text |-> \A k \in 1..Len(r.files) : r.files[k].text,
          counted |-> \A k \in 1..Len(r.files) : r.files[k].listed = r.files[k].changed,
          reported |-> (r.status # 0) = r.bad,
          sources |-> r.sources]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}
Min2(a, b) == IF a < b THEN a ELSE b
JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
