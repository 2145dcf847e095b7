-------------------------------- MODULE HistMC --------------------------------
(* State machine of a distribution: samples are inserted one at a time into  *)
(* bins of width W over 0..NB*W, then restricted to an interval.  Shows that *)
(* keeping whole bins satisfies the relations of Calib.tla, and generates    *)
(* every (sample set, interval) replayed into the code.                      *)
EXTENDS Calib
CONSTANTS NB, W, MaxN
VARIABLES xs, a, b, phase
hvars == <<xs, a, b, phase>>
Top == NB * W
BinOf(x) == IF x = Top THEN NB ELSE (x \div W) + 1
Insert == /\ phase = "fill" /\ Len(xs) < MaxN /\ \E v \in 0..Top : (xs # <<>> => v >= xs[Len(xs)]) /\ xs' = Append(xs, v)
          /\ UNCHANGED <<a, b, phase>>
Cut == /\ phase = "fill" /\ xs # <<>> /\ \E i, j \in -1..(Top + 1) : i <= j /\ a' = i /\ b' = j
       /\ phase' = "cut" /\ UNCHANGED xs
HInit == xs = <<>> /\ a = 0 /\ b = 0 /\ phase = "fill"
HNext == Insert \/ Cut
(* the histogram *)
Counts == [k \in 1..NB |-> Cardinality({i \in 1..Len(xs) : BinOf(xs[i]) = k})]
X == [sh |-> <<Len(xs)>>, v |-> [i \in 1..Len(xs) |-> DInt(xs[i])]]
Edges == [v |-> [k \in 1..(NB + 1) |-> DInt((k - 1) * W)]]
HEv == [ev |-> "Hist", ok |-> TRUE, x |-> X, counts |-> Counts, bins |-> NB, edges |-> Edges,
        min |-> DInt(xs[1]), max |-> DInt(xs[Len(xs)]), got |-> <<>>]
HistOk == xs # <<>> => JHist(HEv).bad = {}
(* whole bins that meet the interval are kept *)
Lowest == IF a < 0 THEN 1 ELSE MinI(a \div W + 1, NB)
Highest == IF b < 0 THEN 1 ELSE MinI(b \div W + 1, NB)
SEv == [ev |-> "Slice", ok |-> TRUE, x |-> X, hasa |-> TRUE, hasb |-> TRUE, f32 |-> FALSE, dmin |-> D0, dmax |-> D0, a |-> DInt(a), b |-> DInt(b), w |-> DInt(W),
        min |-> DInt((Lowest - 1) * W), max |-> DInt(Highest * W),
        total |-> Cardinality({i \in 1..Len(xs) : BinOf(xs[i]) \in Lowest..Highest}), before |-> TRUE]
SliceOk == phase = "cut" => JSlice(SEv).bad = {}
SortedSeqs == UNION {{s \in [1..n -> 0..Top] : \A i \in 1..(n - 1) : s[i] <= s[i + 1]} : n \in 1..MaxN}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [xs |-> SetToSeq(SortedSeqs), top |-> Top])
=============================================================================
