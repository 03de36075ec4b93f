------------------------------ MODULE TraceFuzzy ------------------------------
EXTENDS Fuzzy, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

(* a long text: label of every token after matching, o: the field it belongs to,    *)
(* e: it was damaged; s, so: the same for its sub annotation                        *)
Whole(r) == \A k \in 1..Len(r.toks) :
              (r.toks[k].o # "" /\ ~r.toks[k].e) => r.toks[k].t = r.toks[k].o
Nothing(r) == \A k \in 1..Len(r.toks) : r.toks[k].t # "" => r.toks[k].t = r.toks[k].o
Parts(r) == \A k \in 1..Len(r.toks) :
              r.toks[k].t = r.toks[k].o => r.toks[k].s = r.toks[k].so
Clauses(r) ==
  CASE r.kind = "search" ->
         [sound |-> SearchSound(r.blocks, r.hay, r.needle, r.thr[1], r.thr[2]),
          best |-> ~r.onewindow \/ SearchBest(r.blocks, r.hay, r.needle),
          complete |-> IF r.onewindow THEN SearchComplete(r.blocks, r.hay, r.needle)
                       ELSE Positions(r.hay, r.needle) # {} => r.blocks # <<>>,
          junk |-> ~r.sparse \/ SearchDespiteJunk(r.blocks, r.hay, r.needle),
          range |-> IF r.blocks = <<>> THEN r.range = <<>>
                    ELSE r.range = <<r.blocks[1][1], r.blocks[1][1] + Extent(r.blocks)>>]
    [] r.kind = "all" ->    \* successive occurrences
         [ordered |-> \A k \in 1..Len(r.ranges) :
                        /\ 0 <= r.ranges[k][1] /\ r.ranges[k][1] < r.ranges[k][2]
                        /\ r.ranges[k][2] <= Len(r.hay)
                        /\ k > 1 => r.ranges[k][1] >= r.ranges[k - 1][2],
          complete |-> \A p \in Positions(r.hay, r.needle) :
                         \E k \in 1..Len(r.ranges) :
                           r.ranges[k][1] <= p + Len(r.needle) - 1 /\ r.ranges[k][2] >= p + 1]
    [] r.kind = "text" -> [whole |-> Whole(r), nothing |-> Nothing(r), parts |-> Parts(r)]
Failing(r) ==
  IF r.exc # "" THEN {"completes"}
  ELSE LET c == Clauses(r) IN {n \in DOMAIN c : ~c[n]}
JInit == i \in 1..Min2(64, Len(Recs))
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
=============================================================================
