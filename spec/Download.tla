------------------------------- MODULE Download -------------------------------
(* Copying pairs of files (document, target XML) named by two file lists.           *)
(*                                                                                  *)
(* A list is a sequence of entries [p: path relative to the base path or, if abs,    *)
(* absolute; exists; c: content]. A pair is the entries at the same place of both    *)
(* lists; only pairs of which both files exist are copied. A pattern is a sequence   *)
(* of [k, f, x]: literal text x, the index of the pair among those copied, or a part *)
(* f of the path of the file itself or of its document or target.                    *)
(* Paths are sequences of characters.                                               *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

LastAt(s, c) == LET at == {k \in 1..Len(s) : s[k] = c} IN IF at = {} THEN 0 ELSE Max(at)
DirOf(p) == SubSeq(p, 1, LastAt(p, "/"))
FileOf(p) == SubSeq(p, LastAt(p, "/") + 1, Len(p))
(* leading dots do not begin an extension *)
SplitAt(f) ==
  LET d == LastAt(f, ".")
  IN IF d = 0 \/ \A k \in 1..d : f[k] = "." THEN Len(f) + 1 ELSE d
StemOf(f) == SubSeq(f, 1, SplitAt(f) - 1)
SuffixOf(f) == SubSeq(f, SplitAt(f), Len(f))
Lower2(c) == CASE c = "G" -> "g" [] c = "Z" -> "z" [] OTHER -> c
IsGz(s) == [k \in 1..Len(s) |-> Lower2(s[k])] = <<".", "g", "z">>
Bare(p) == LET f == FileOf(p) IN IF IsGz(SuffixOf(f)) THEN StemOf(f) ELSE f
Part(p, f) ==
  CASE f = "dir" -> IF Len(DirOf(p)) > 0 /\ DirOf(p)[1] = "/" THEN Tail(DirOf(p)) ELSE DirOf(p)
    [] f = "filename" -> FileOf(p)
    [] f = "name" -> StemOf(Bare(p))
    [] f = "ext" -> SuffixOf(Bare(p))
Digit1 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<Digit1[n + 1]>> ELSE Digits(n \div 10) \o Digits(n % 10)

Limited(s, limit) == IF limit > 0 /\ limit < Len(s) THEN SubSeq(s, 1, limit) ELSE s
Pairs(docs, tgts, limit) ==
  LET d == Limited(docs, limit)
      t == Limited(tgts, limit)
  IN SelectSeq([k \in 1..Min({Len(d), Len(t)}) |-> [doc |-> d[k], tgt |-> t[k]]],
               LAMBDA x : x.doc.exists /\ x.tgt.exists)
NameOf(pattern, pairs, k, own) ==    \* relative to the output path
  FlattenSeq([j \in 1..Len(pattern) |->
    LET e == pattern[j]
    IN CASE e.k = "lit" -> e.x
         [] e.k = "index" -> Digits(k - 1)
         [] e.k = "self" -> Part(own.p, e.f)
         [] e.k = "document" -> Part(pairs[k].doc.p, e.f)
         [] e.k = "target" -> Part(pairs[k].tgt.p, e.f)])
(* files to be written: [at: where, path, c: content] *)
Outputs(docs, tgts, cfg) ==
  LET ps == Pairs(docs, tgts, cfg.limit)
  IN [k \in 1..Len(ps) |-> [at |-> cfg.docAt, path |-> NameOf(cfg.docPattern, ps, k, ps[k].doc),
                            c |-> ps[k].doc.c]]
     \o [k \in 1..Len(ps) |-> [at |-> cfg.tgtAt, path |-> NameOf(cfg.tgtPattern, ps, k, ps[k].tgt),
                               c |-> ps[k].tgt.c]]
Places(out) == [k \in 1..Len(out) |-> <<out[k].at, out[k].path>>]
DifferentNames(out) == \A a, b \in 1..Len(out) : a # b => Places(out)[a] # Places(out)[b]
SameLength(docs, tgts, cfg) == Len(Limited(docs, cfg.limit)) = Len(Limited(tgts, cfg.limit))
Refused(docs, tgts, cfg) ==
  ~SameLength(docs, tgts, cfg) \/ Pairs(docs, tgts, cfg.limit) = <<>>
=============================================================================
