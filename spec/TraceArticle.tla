---- MODULE TraceArticle ----
(* Judges recorded runs of the tools with their own configuration on whole articles. *)
EXTENDS Article, TLC, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE i

Failing(r) ==
  IF r.error # "" \/ ~r.saved THEN {"completes"}
  ELSE LET ws == WordsOf(r.tool, r.parts) IN
       IF ~Kept(ws, r.texts) THEN {"kept"}
       ELSE LET c == [placed |-> Placed(ws, r.texts), together |-> Together(ws, r.texts),
                      separate |-> Separate(ws, r.texts)]
            IN {n \in DOMAIN c : ~c[n]}

JInit == i \in 1..(IF Len(Recs) < 64 THEN Len(Recs) ELSE 64)
JNext == i + 64 <= Len(Recs) /\ i' = i + 64
JInv == LET f == Failing(Recs[i])
        IN f = {} \/ PrintT("BAD " \o ToString(i) \o " " \o ToString(f))
====
