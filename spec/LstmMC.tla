------------------------------- MODULE LstmMC -------------------------------
(***************************************************************************)
(* A one-unit, one-feature quantised recurrent layer as an explicit state  *)
(* machine over native integers (scales are powers of two, so that every   *)
(* requantisation is exact integer arithmetic).  A caller runs sequences   *)
(* on one layer object; the layer has to start every call from real zero.  *)
(* TLC explores every sequence of calls over a small input alphabet and    *)
(* checks range, causality and restart on the machine, and that the        *)
(* relations used to judge the code accept exactly the neighbours of the   *)
(* machine's own results.  The histories are replayed on the real layer.   *)
(***************************************************************************)
EXTENDS Lstm
CONSTANTS MaxSteps, MaxCalls
Xs == {-4, 0, 3}
Lo == -4
Hi == 3
HZ == -1                       \* zero point of the hidden state
CZ == 1
K == 2
R == -1
Bs == 1
Lut1 == [q \in Lo..Hi |-> IF q < 0 THEN q \div 2 ELSE q]
Clip(v) == IF v < Lo THEN Lo ELSE IF v > Hi THEN Hi ELSE v
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Ra(h, x) == Clip(Trunc((h - HZ) * R + K * x + Bs, 2))
C1(c, g) == Clip(CZ + Trunc(g * (c - CZ) + 2 * g * g, 4))
H1(c, g) == Clip(HZ + Trunc(g * Lut1[c], 2))
StepHC(hc, x) == LET g == Lut1[Ra(hc[1], x)]  c == C1(hc[2], g) IN <<H1(c, g), c>>
RECURSIVE RunFrom(_, _)
RunFrom(hc, xs) == IF xs = <<>> THEN hc ELSE RunFrom(StepHC(hc, xs[1]), Tail(xs))
F(xs) == RunFrom(<<HZ, CZ>>, xs)[1]

VARIABLES calls, cur, hc, outs         \* finished calls, steps of the current call, state, its outputs
vars == <<calls, cur, hc, outs>>
Init == calls = <<>> /\ cur = <<>> /\ hc = <<HZ, CZ>> /\ outs = <<>>
Feed == /\ Len(cur) < MaxSteps /\ Len(calls) < MaxCalls
        /\ \E x \in Xs : cur' = Append(cur, x) /\ hc' = StepHC(hc, x)
        /\ outs' = Append(outs, hc'[1]) /\ UNCHANGED calls
Return == /\ cur # <<>> /\ Len(calls) < MaxCalls
          /\ calls' = Append(calls, <<cur, outs>>)
          /\ cur' = <<>> /\ outs' = <<>> /\ hc' = <<HZ, CZ>>
Next == Feed \/ Return
Spec == Init /\ [][Next]_vars
InRange == hc[1] \in Lo..Hi /\ hc[2] \in Lo..Hi
Causal == \A k \in 1..Len(cur) : outs[k] = F(SubSeq(cur, 1, k))
Restart == \A i \in 1..Len(calls) : \A k \in 1..Len(calls[i][1]) : calls[i][2][k] = F(SubSeq(calls[i][1], 1, k))
(* the judging relation accepts the machine's requantisation, and nothing two steps away *)
Judged == \A h \in {hc[1]}, x \in Xs :
   LET num == (h - HZ) * R + K * x + Bs  q == Ra(h, x)
       Ok(v) == Around(DInt(num), DInt(2), D0, DInt(Lo), DInt(Hi), DInt(v), D0) IN
   /\ Ok(q)
   /\ \A v \in Lo..Hi : AbsI(v - q) > 1 => ~Ok(v)
   /\ ~Ok(Hi + 1) /\ ~Ok(Lo - 1)
Alphabet == SetToSeq(Xs)
Histories == UNION {[1..n -> UNION {[1..k -> Xs] : k \in 1..MaxSteps}] : n \in 1..MaxCalls}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Histories))
=============================================================================
