--------------------------------- MODULE Qubo ---------------------------------
(***************************************************************************)
(* Rounding as a binary quadratic problem (C20).                           *)
(*                                                                         *)
(* A layer: float samples y (its float output), quantised inputs xr, the   *)
(* scales, and the floors fk, fb of weights and biases in integer units.   *)
(* A choice of rounding bits (kp, bp) denotes the reconstruction           *)
(*    rec[s][l] = si*sk * SUM_i (fk[l][i]+kp[l][i]) * xr[s][i]             *)
(*                + sb * (fb[l]+bp[l])                                     *)
(* and the error SUM_s,l (y[s][l] - rec[s][l])^2, which is N times the     *)
(* mean squared error of every unit.  The problems handed to the solver    *)
(* must have energies that differ between any two solutions by exactly     *)
(* what the errors of the decoded choices differ.                          *)
(*                                                                         *)
(* The state is the layer, plus the energies and the error of the first    *)
(* solution, plus the values seen for each bit.                            *)
(***************************************************************************)
EXTENDS Verdict

NoLayer == [on |-> FALSE]
RECURSIVE SumD(_, _, _)
SumD(f, a, n) == IF a > n THEN D0 ELSE DAdd(f[a], SumD(f, a + 1, n))

RecOf(L, s, l, kr, b) ==
  DAdd(DMul(DMul(L.si, L.sk), SumD([i \in 1..L.nin |-> DMul(DInt(L.fk[l][i] + kr[i]), DInt(L.xr[s][i]))], 1, L.nin)),
       DMul(L.sb, DInt(L.fb[l] + b)))
Sq(x) == DMul(x, x)
ErrUnit(L, l, kr, b) == SumD([s \in 1..L.n |-> Sq(DSub(L.y[s][l], RecOf(L, s, l, kr, b)))], 1, L.n)
Err(L, kp, bp) == SumD([l \in 1..L.nout |-> ErrUnit(L, l, kp[l], bp[l])], 1, L.nout)
MagUnit(L, l) ==
  SumD([s \in 1..L.n |-> Sq(DAdd(DAbs(L.y[s][l]),
        DAdd(DMul(DMul(L.si, L.sk), SumD([i \in 1..L.nin |-> DMul(DInt(AbsI(L.fk[l][i]) + 1), DInt(AbsI(L.xr[s][i])))], 1, L.nin)),
             DMul(L.sb, DInt(AbsI(L.fb[l]) + 1)))))], 1, L.n)
Mag(L) == SumD([l \in 1..L.nout |-> MagUnit(L, l)], 1, L.nout)

(* energy of a solved problem p = [q |-> <<<<i, j, c>>, ...>>, x |-> bits] *)
RECURSIVE EnergyAt(_, _)
EnergyAt(p, k) == IF k > Len(p.q) THEN D0
                  ELSE LET t == p.q[k] IN DAdd(IF p.x[t.i] = 1 /\ p.x[t.j] = 1 THEN t.c ELSE D0, EnergyAt(p, k + 1))
Energy(p) == EnergyAt(p, 1)
RECURSIVE GroupE(_, _)
GroupE(g, k) == IF k > Len(g) THEN D0 ELSE DAdd(Energy(g[k]), GroupE(g, k + 1))
RECURSIVE GroupVars(_, _)
GroupVars(g, k) == IF k > Len(g) THEN 0 ELSE Len(g[k].x) + GroupVars(g, k + 1)

(* the recorded floors and rounded inputs are those of the layer (unambiguous by construction of the driver) *)
Between(q, s, v) == DLe(DMul(DInt(q), s), v) /\ DLe(v, DMul(DInt(q + 1), s))
Witness(e) == /\ \A l \in 1..e.nout : Between(e.fb[l], DMul(e.si, e.sk), e.b[l]) /\ \A i \in 1..e.nin : Between(e.fk[l][i], e.sk, e.k[l][i])
              /\ \A s \in 1..e.n, i \in 1..e.nin : DLe(DDist(DMul(DInt(e.xr[s][i]), e.si), e.x[s][i]), DMul(e.si, DHalf))

JLayer(st, e) == V([on |-> TRUE, L |-> e, n |-> 0, err |-> D0, es |-> <<>>, zero |-> {}, one |-> {}, mag |-> Mag(e)],
                   If(Witness(e), "recorded rounding of the layer"), {"Layer"} \cup Tag(e.nout > 1, "several units") \cup Tag(e.act # "linear", "activation"))

Bits(e) == {<<l, i>> : l \in 1..Len(e.kp), i \in 1..Len(e.kp[1])} \cup {<<l, 0>> : l \in 1..Len(e.bp)}
BitOf(e, p) == IF p[2] = 0 THEN e.bp[p[1]] ELSE e.kp[p[1]][p[2]]
ShapesOk(L, e) == Len(e.kp) = L.nout /\ Len(e.bp) = L.nout /\ (\A l \in 1..L.nout : Len(e.kp[l]) = L.nin)
Binary(e) == (\A l \in 1..Len(e.kp) : \A i \in 1..Len(e.kp[l]) : e.kp[l][i] \in {0, 1}) /\ \A l \in 1..Len(e.bp) : e.bp[l] \in {0, 1}
Assign(n) == [1..n -> {0, 1}]
MinUnit(L, l, kr, b, tol) == \A a \in Assign(L.nin + 1) : DLe(ErrUnit(L, l, kr, b), DAdd(ErrUnit(L, l, a, a[L.nin + 1]), tol))

JSol(st, e) ==
  IF ~st.on THEN V(st, {"solution without a layer"}, {})
  ELSE IF ~e.ok THEN V(st, {"the rounding problem cannot be solved"}, {})
  ELSE IF ~ShapesOk(st.L, e) THEN V(st, {"policies of the tensors' shapes"}, {})
  ELSE IF ~Binary(e) THEN V(st, {"policies of zeros and ones"}, {})
  ELSE
  LET L == st.L
      err == Err(L, e.kp, e.bp)
      es == [g \in 1..Len(e.groups) |-> GroupE(e.groups[g], 1)]
      tol == DScale(st.mag, L.eps)
      nn == DInt(L.n)
      new == [st EXCEPT !.n = @ + 1, !.err = IF st.n = 0 THEN err ELSE @, !.es = IF st.n = 0 THEN es ELSE @,
                        !.zero = @ \cup {p \in Bits(e) : BitOf(e, p) = 0}, !.one = @ \cup {p \in Bits(e) : BitOf(e, p) = 1}] IN
  V(new,
    (IF st.n = 0 THEN {}
     ELSE If(Len(es) = Len(st.es) /\ \A g \in 1..Len(es) :
               DLe(DDist(DMul(nn, DSub(es[g], st.es[g])), DSub(err, st.err)), tol), "energies differ as the reconstruction errors do"))
    \cup If(\A g \in 1..Len(e.groups) : GroupVars(e.groups[g], 1) >= L.nout * (L.nin + 1), "every rounding bit occurs in the problem")
    \cup (IF e.best THEN If(\A l \in 1..L.nout : MinUnit(L, l, e.kp[l], e.bp[l], DScale(tol, 1)), "the exact solution has the smallest reconstruction error") ELSE {}),
    {"Solution"} \cup Tag(e.best, "exact minimum") \cup Tag(Len(e.groups) > 1, "both formulations") \cup Tag(st.n > 0 /\ ~DEq(err, st.err), "different error"))

JQEnd(st, e) == V(NoLayer, IF st.on /\ st.n > 0 THEN If(~e.cover \/ (LET all == {<<l, i>> : l \in 1..st.L.nout, i \in 0..st.L.nin} IN st.zero = all /\ st.one = all), "every rounding bit is decided by the solution") ELSE {}, {"QEnd"})

QStep(st, e) ==
  CASE e.ev = "QLayer" -> JLayer(st, e)
    [] e.ev = "QSol" -> JSol(st, e)
    [] e.ev = "QEnd" -> JQEnd(st, e)
    [] OTHER -> V(NoLayer, {"unexpected error"}, {})
=============================================================================
