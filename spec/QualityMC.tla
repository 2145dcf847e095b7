----------------------------- MODULE QualityMC -----------------------------
(***************************************************************************)
(* Quantising a growing sequence of small integers on a grid of step 1..S, *)
(* as a state machine: values are appended, the grid coarsened.  Shows     *)
(* that the number of collisions is zero iff quantisation is injective on  *)
(* the values, never falls when a value is appended or the grid doubled,   *)
(* ignores repetitions, and that the divergence of the histogram of the    *)
(* values from that of their quantised values (levelled over the values    *)
(* sharing one) is not negative and zero exactly when they are equal.      *)
(***************************************************************************)
EXTENDS Quality
CONSTANTS Top, MaxN, Steps
VARIABLES xs, step
vars == <<xs, step>>
N == Len(xs)
Q(x, k) == x \div k
Append1 == N < MaxN /\ \E v \in 0..Top : xs' = Append(xs, v) /\ UNCHANGED step
Coarsen == N > 0 /\ 2 * step \in Steps /\ step' = 2 * step /\ UNCHANGED xs
QInit == xs = <<>> /\ step \in Steps
QNext == Append1 \/ Coarsen
F(s) == [i \in 1..Len(s) |-> DInt(s[i])]
G(s, k) == [i \in 1..Len(s) |-> DInt(Q(s[i], k))]
Count(s, k) == Collisions(F(s), G(s, k), 0)
Injective == \A i, j \in 1..N : Q(xs[i], step) = Q(xs[j], step) => xs[i] = xs[j]
ZeroIffInjective == Count(xs, step) = 0 <=> Injective
NotOne == Count(xs, step) # 1 /\ Count(xs, step) <= Cardinality({xs[i] : i \in 1..N})
Repeats == N > 0 => Count(xs \o xs, step) = Count(xs, step)
Grows == [][Count(xs', step') >= Count(xs, step)]_vars
(* histograms over 0..Top: of the values, and levelled within each cell of the grid *)
H(v) == Cardinality({i \in 1..N : xs[i] = v})
Cell(v) == {w \in 0..Top : Q(w, step) = Q(v, step)}
Lev(v) == LET c == Cell(v) IN <<Cardinality({i \in 1..N : xs[i] \in c}), Cardinality(c)>>
P == [v \in 1..(Top + 1) |-> DInt(H(v - 1))]
L == [v \in 1..(Top + 1) |-> DMul(DInt(Lev(v - 1)[1]), DRecip(DInt(Lev(v - 1)[2])))]
Div == DSum([v \in 1..(Top + 1) |-> IF DSgn(P[v]) = 0 THEN L[v] ELSE KTerm(P[v], L[v])])
Gibbs == N > 0 => DLe(DNeg(DPow(-40)), Div) /\ ((\A v \in 1..(Top + 1) : DLe(DDist(P[v], L[v]), DPow(-40))) <=> DLe(Div, DPow(-30)))
LogOk == DLe(DDist(DExp(Ln2), DInt(2)), DPow(-50)) /\ \A i \in 1..(Top + 3) : LET x == DScale(DInt(i), -1) IN
           /\ DLe(DDist(DLn(DExp(x)), x), DPow(-40))
           /\ DLe(DDist(DExp(DLn(x)), x), DPow(-40))
           /\ DLe(DDist(DAdd(DLn(x), DLn(DInt(3))), DLn(DMul(x, DInt(3)))), DPow(-45))
           /\ DLe(DDist(DMul(x, DRecip(x)), D1), DPow(-46))
LogAll == N > 0 \/ LogOk
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [xs |-> SetToSeq(UNION {[1..n -> 0..Top] : n \in 1..MaxN}), steps |-> SetToSeq(Steps)])
=============================================================================
