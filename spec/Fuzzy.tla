-------------------------------- MODULE Fuzzy --------------------------------
(* Approximate search of a text (needle) in another (hay), both sequences of      *)
(* characters: the best local alignment (2 per equal character, -1 per different   *)
(* one, -2 per missing one), accepted if enough of the needle is in it.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Tags

MatchScore == 2
DiffScore == -1
GapScore == -2
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
(* one row of the table of best scores of alignments that end at (i, j) *)
NextRow(prev, c, needle) ==
  FoldLeft(LAMBDA row, j :
             Append(row, MaxOf({0,
               prev[j] + (IF needle[j] = c THEN MatchScore ELSE DiffScore),
               prev[j + 1] + GapScore, row[j] + GapScore})),
           <<0>>, [j \in 1..Len(needle) |-> j])
Best(hay, needle) ==
  LET zero == [j \in 1..(Len(needle) + 1) |-> 0]
  IN FoldLeft(LAMBDA a, c : LET row == NextRow(a.row, c, needle)
                            IN [row |-> row, best |-> MaxOf({a.best} \cup Range1(row))],
              [row |-> zero, best |-> 0], hay).best

(* blocks: sequence of <<position in hay, position in needle, length>> (from 0) *)
Matched(blocks) == FoldLeft(LAMBDA a, b : a + b[3], 0, blocks)
WellFormed(blocks, hay, needle) ==
  /\ \A k \in 1..Len(blocks) :
       /\ blocks[k][3] > 0 /\ blocks[k][1] >= 0 /\ blocks[k][2] >= 0
       /\ blocks[k][1] + blocks[k][3] <= Len(hay) /\ blocks[k][2] + blocks[k][3] <= Len(needle)
       /\ SubSeq(hay, blocks[k][1] + 1, blocks[k][1] + blocks[k][3])
          = SubSeq(needle, blocks[k][2] + 1, blocks[k][2] + blocks[k][3])
  /\ \A k \in 1..(Len(blocks) - 1) :
       /\ blocks[k + 1][1] >= blocks[k][1] + blocks[k][3]
       /\ blocks[k + 1][2] >= blocks[k][2] + blocks[k][3]
Score(blocks) ==
  MatchScore * Matched(blocks)
  + FoldLeft(LAMBDA a, k :
       LET da == blocks[k + 1][1] - blocks[k][1] - blocks[k][3]
           db == blocks[k + 1][2] - blocks[k][2] - blocks[k][3]
       IN a + DiffScore * Min2(da, db) + GapScore * (Max2(da, db) - Min2(da, db)),
     0, [k \in 1..(Len(blocks) - 1) |-> k])
Extent(blocks) == Last1(blocks)[1] + Last1(blocks)[3] - blocks[1][1]
(* characters that do not count if only one of the two has them: an asterisk, a dot   *)
(* after a letter, a comma after a dot                                                 *)
NotLetters == {".", ",", "*", "-", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Junk(s, k) ==
  \/ s[k] = "*"
  \/ s[k] = "." /\ k > 1 /\ s[k - 1] \notin NotLetters
  \/ s[k] = "," /\ k > 1 /\ s[k - 1] = "."
NoJunk(s) == FoldLeft(LAMBDA a, k : IF Junk(s, k) THEN a ELSE Append(a, s[k]),
                      <<>>, [k \in 1..Len(s) |-> k])
LooseJunk(s, from, to, blocks, side) ==
  Cardinality({k \in from..to :
    Junk(s, k) /\ \A b \in Range1(blocks) : ~(b[side] < k /\ k <= b[side] + b[3])})
(* num/den: threshold *)
Enough(blocks, hay, needle, num, den) ==
  Matched(blocks) * den
  >= num * (Len(needle) + Extent(blocks) - Matched(blocks)
            - LooseJunk(needle, 1, Len(needle), blocks, 2)
            - LooseJunk(hay, blocks[1][1] + 1, blocks[1][1] + Extent(blocks), blocks, 1))
Positions(hay, needle) ==
  {p \in 0..(Len(hay) - Len(needle)) : SubSeq(hay, p + 1, p + Len(needle)) = needle}

(* the whole of it: r is what a search reported: <<>> (nothing) or blocks *)
SearchSound(r, hay, needle, num, den) ==
  r # <<>> => WellFormed(r, hay, needle) /\ Enough(r, hay, needle, num, den)
SearchBest(r, hay, needle) == r # <<>> => Score(r) = Best(hay, needle)
SearchComplete(r, hay, needle) ==
  Positions(hay, needle) # {} =>
    /\ r # <<>> /\ Matched(r) = Len(needle) /\ Extent(r) = Len(needle)
(* nothing but such characters is different *)
SearchDespiteJunk(r, hay, needle) ==
  Positions(NoJunk(hay), NoJunk(needle)) # {} => r # <<>>
=============================================================================
