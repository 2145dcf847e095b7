------------------------------- MODULE Typed -------------------------------
(***************************************************************************)
(* Typed integer arithmetic with widening (C06).  Values are exact dyadic  *)
(* integers, types are [signed, bits].                                      *)
(***************************************************************************)
EXTENDS Verdict
Lo(t) == IF t.signed THEN DNeg(DPow(t.bits - 1)) ELSE D0
Hi(t) == IF t.signed THEN DSub(DPow(t.bits - 1), D1) ELSE DSub(DPow(t.bits), D1)
FitsIn(v, t) == DLe(Lo(t), v) /\ DLe(v, Hi(t))
Wider(t, u) == IF t.bits > u.bits THEN t ELSE u
Double(t) == [t EXCEPT !.bits = IF t.bits >= 32 THEN 64 ELSE 2 * t.bits]
Apply(op, a, b) == CASE op = "add" -> DAdd(a, b) [] op = "sub" -> DSub(a, b) [] op = "mul" -> DMul(a, b)

(* broadcast of scalars (1 element) against vectors *)
Pick(v, i) == IF Len(v) = 1 THEN v[1] ELSE v[i]

(* e: op, a, at, b, bt, ok, out, rt;  out.sh is the result's shape *)
JTyped(e) ==
  LET n == IF Len(e.a.v) = 1 THEN Len(e.b.v) ELSE Len(e.a.v)
      exact == [i \in 1..n |-> Apply(e.op, Pick(e.a.v, i), Pick(e.b.v, i))]
      larger == Wider(e.at, e.bt)
      dbl == Double(larger)
      indom == \A i \in 1..n : FitsIn(exact[i], dbl)
      fitsleft == \A i \in 1..n : FitsIn(exact[i], e.at)
      neither == \E i \in 1..n : ~FitsIn(exact[i], e.at) /\ ~FitsIn(exact[i], e.bt)
  IN IF ~indom THEN V("none", {}, {"out-of-domain"})
     ELSE IF ~e.ok THEN V("none", {"typed arithmetic raises"}, {})
     ELSE IF Len(e.out.v) # n THEN V("none", {"typed result shape"}, {})
     ELSE V("none",
       If(\A i \in 1..n : DEq(e.out.v[i], exact[i]), "typed result exact")
       \cup If(\A i \in 1..n : FitsIn(e.out.v[i], e.rt), "result type represents the result")
       \cup If(fitsleft => e.rt = larger, "keeps the larger operand type")
       \cup If(neither => e.rt = dbl, "widens to the double type")
       \cup If(e.aafter = e.a /\ e.bafter = e.b, "operands unchanged")
       \cup If(DEq(e.rlo, Lo(e.rt)) /\ DEq(e.rhi, Hi(e.rt)), "range reported by the result"),
       {"Typed", e.op} \cup Tag(neither, "widened") \cup Tag(fitsleft, "kept") \cup Tag(e.at.bits # e.bt.bits, "mixed-width")
       \cup Tag(\E i \in 1..n : ~FitsIn(exact[i], e.at) /\ FitsIn(exact[i], e.bt), "fits-right-only")
       \cup Tag(n > 1, "vector") \cup Tag(~e.at.signed, "unsigned") \cup Tag(neither /\ dbl.bits = 64, "widened-to-64"))
TStep(s, e) == CASE e.ev = "Typed" -> JTyped(e)
                 [] e.ev = "Exception" -> V("none", {"unexpected error " \o e.what}, {})
                 [] OTHER -> V("none", {"unknown event"}, {})
=============================================================================
