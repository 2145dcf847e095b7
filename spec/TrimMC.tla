------------------------------- MODULE TrimMC -------------------------------
(***************************************************************************)
(* Trimming as a state machine over small integer samples: samples are     *)
(* collected one at a time (in order), a share is chosen, the tails are    *)
(* saturated at the interpolated quantiles and the result is calibrated.   *)
(* Shows that this satisfies Trim.tla, that trimming twice only narrows,   *)
(* and generates every (sample set, share) replayed into the code.         *)
(***************************************************************************)
EXTENDS Trim
CONSTANTS Top, MaxN, Eighths
VARIABLES xs, p, lo, hi, phase
tvars == <<xs, p, lo, hi, phase>>
N == Len(xs)
(* quantile at share k/8 in units of 1/8 *)
Quant(k) == LET pos == k * (N - 1)  f == pos \div 8  r == pos % 8
            IN IF r = 0 THEN 8 * xs[f + 1] ELSE 8 * xs[f + 1] + r * (xs[f + 2] - xs[f + 1])
Collect == /\ phase = "fill" /\ N < MaxN /\ \E v \in 0..Top : (xs # <<>> => v >= xs[N]) /\ xs' = Append(xs, v)
           /\ UNCHANGED <<p, lo, hi, phase>>
Cut == /\ phase = "fill" /\ N > 0 /\ \E k \in Eighths : p' = k /\ lo' = Quant(k) /\ hi' = Quant(8 - k)
       /\ phase' = "cut" /\ UNCHANGED xs
TInit == xs = <<>> /\ p = 0 /\ lo = 0 /\ hi = 0 /\ phase = "fill"
TNext == Collect \/ Cut
Val(v) == DScale(DInt(v), -3)
X == [sh |-> <<N>>, v |-> [i \in 1..N |-> DInt(xs[i])]]
Cl(v) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Ev == [ev |-> "Trim", ok |-> TRUE, kind |-> "share", p |-> Val(p), x |-> X, f32 |-> FALSE, omin |-> DInt(xs[1]), omax |-> DInt(xs[N]),
       min |-> Val(lo), max |-> Val(hi), counts |-> <<N>>, edges |-> [v |-> <<Val(lo), Val(hi)>>], same |-> TRUE, const |-> lo = hi,
       s |-> DAdd(D1, Val(MaxI(0, hi))), s0 |-> DAdd(D1, DInt(xs[N])), z |-> D0, w |-> D1, levels |-> 0]
TrimOk == phase = "cut" => JTrim(Ev).bad = {}
Inside == phase = "cut" => 8 * xs[1] <= lo /\ lo <= hi /\ hi <= 8 * xs[N]
NoShare == phase = "cut" /\ p = 0 => lo = 8 * xs[1] /\ hi = 8 * xs[N]
SortedSeqs == UNION {{s \in [1..n -> 0..Top] : \A i \in 1..(n - 1) : s[i] <= s[i + 1]} : n \in 1..MaxN}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [xs |-> SetToSeq(SortedSeqs), ps |-> SetToSeq(Eighths)])
=============================================================================
