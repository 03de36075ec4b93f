----------------------------- MODULE TraceTarget -----------------------------
EXTENDS Target, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

BagOf(vs) == [v \in ToSet(vs) |-> Cardinality({k \in 1..Len(vs) : vs[k] = v})]
Shape(as) == [k \in 1..Len(as) |-> [name |-> as[k].name, mm |-> as[k].mm, bond |-> as[k].bond,
                                    next |-> as[k].next]]
Vals(as) == [k \in 1..Len(as) |-> BagOf([j \in 1..Len(as[k].vals) |-> Norm(as[k].vals[j])])]
Subs(as) == [k \in 1..Len(as) |-> [j \in 1..Len(as[k].subs) |->
               [name |-> as[k].subs[j].name,
                vals |-> BagOf([v \in 1..Len(as[k].subs[j].vals) |-> Norm(as[k].subs[j].vals[v])])]]]
LongFirst(as) == \A k \in 1..Len(as) : \A j \in 2..Len(as[k].vals) :
                   Len(as[k].vals[j]) <= Len(as[k].vals[j - 1])
Asked(r) == Narrow(Override(r.mapping, r.over), r.fields, r.subs)
Clauses(r) ==
  LET m == Asked(r)
      want == Targets(r.tree, m)
  IN [fields |-> Shape(r.got) = Shape(want),
      values |-> Vals(r.got) = Vals(want),
      parts |-> Subs(r.got) = Subs(want),
      long |-> LongFirst(r.got),
      names |-> ToSet(r.names) = FieldNames(r.mapping, r.fields),
      untouched |-> r.same]
Applies(r) == Plainly(r.tree, Asked(r))
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE IF ~Applies(r) THEN {}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}
Min2(a, b) == IF a < b THEN a ELSE b
JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
