-------------------------------- MODULE Search --------------------------------
(***************************************************************************)
(* Optimisation histories.                                                 *)
(*                                                                         *)
(* Parameter search (C18): a point is the vector of <<scale, zero point>>  *)
(* of the searched nodes.  The state remembers the smallest loss evaluated *)
(* so far and the points that reached it; the search must end on one of    *)
(* them, with the network's derived data (integers, bias scales, tables)   *)
(* matching the parameters at every evaluated point.                       *)
(*                                                                         *)
(* Rounding search (C19): a point is the vector of binary policies.        *)
(***************************************************************************)
EXTENDS Node

Idle == [on |-> FALSE, ts |-> <<>>, start |-> <<>>, n |-> 0, min |-> D0, first |-> D0, args |-> {}, flips |-> {}]

(* ------------------------- parameter search ------------------------------ *)
(* e.types[i]: type of node i; e.pt[i] = [s, z] *)
PtOk(ts, pt) == /\ Len(pt) = Len(ts)
                /\ \A i \in 1..Len(pt) : DSgn(pt[i].s) > 0 /\ pt[i].s[1] = 1 /\ DIsInt(pt[i].z) /\ DLe(TLo(ts[i]), pt[i].z) /\ DLe(pt[i].z, THi(ts[i]))
(* derived data of a recorded point *)
TensorFresh(n) == SameShape(n.q, n.x) /\ SameShape(n.pol, n.x) /\ All(n.x, LAMBDA i : FloorRel(n.x.v[i], n.s, n.z, n.pol.v[i], n.t, n.q.v[i]))
BiasOk(b) == DLe(DDist(b.s, DMul(b.si, b.sk)), DScale(b.s, -50)) /\ DEq(b.z, D0)
LutFresh(u) == u.lut.ty # "E" /\
  TableOk([t |-> u.t, s |-> u.s, z |-> u.z, lut |-> [fn |-> u.fn, os |-> u.os, oz |-> u.oz, pol |-> u.pol]], [lut |-> u.lut, lutref |-> u.ref])
Derived(e) == If(\A i \in 1..Len(e.tensors) : TensorFresh(e.tensors[i]), "integers of the current parameters")
              \cup If(\A i \in 1..Len(e.bias) : BiasOk(e.bias[i]), "bias scale is input scale times kernel scale")
              \cup If(\A i \in 1..Len(e.luts) : LutFresh(e.luts[i]), "tables of the current parameters")

JSStart(st, e) == V([Idle EXCEPT !.on = TRUE, !.ts = e.types, !.start = e.pt, !.first = e.loss], If(PtOk(e.types, e.pt), "valid parameters at the start"), {"SearchStart"})
Finite(x) == x[1] # 2
(* a loss that is not a number, or infinite, is never the smallest *)
Seen(st, pt, loss) ==
  IF ~Finite(loss) THEN [st EXCEPT !.n = IF @ = 0 THEN 0 ELSE @ + 1]
  ELSE IF st.n = 0 \/ DLt(loss, st.min) THEN [st EXCEPT !.n = @ + 1, !.min = loss, !.args = {pt}]
  ELSE IF DEq(loss, st.min) THEN [st EXCEPT !.n = @ + 1, !.args = @ \cup {pt}]
  ELSE [st EXCEPT !.n = @ + 1]
JSEval(st, e) ==
  V(Seen(st, e.pt, e.loss),
    If(st.on, "evaluation outside a search")
    \cup If(PtOk(st.ts, e.pt), "scales positive and zero points in range")
    \cup If(~e.hasfresh \/ DEq(e.loss, e.fresh), "the evaluated network is the current one")
    \cup Derived(e),
    {"Eval"} \cup Tag(st.n > 0 /\ Finite(e.loss) /\ DLt(e.loss, st.min), "improvement") \cup Tag(st.n > 0 /\ (Finite(e.loss) => DLt(st.min, e.loss)), "rejected") \cup Tag(~Finite(e.loss), "loss-not-finite")
    \cup Tag(st.n > 0 /\ Finite(e.loss) /\ DEq(st.min, e.loss) /\ e.pt \notin st.args, "equal-loss") \cup Tag(e.luts # <<>>, "tables"))
JSEnd(st, e) ==
  V(Idle,
    If(e.ok, "the search raises")
    \cup (IF ~e.ok \/ st.n = 0 THEN {}
          ELSE If(e.pt \in st.args, "ends on a point of smallest loss")
               \cup If(~e.hascost \/ (Finite(e.cost) /\ DEq(e.cost, st.min)), "reported cost is the smallest evaluated")
               \cup If(Finite(e.reloss) /\ DLe(e.reloss, st.first), "no worse than at the start")
               \cup If(Finite(e.reloss) /\ DEq(e.reloss, st.min), "re-evaluated loss is the smallest evaluated")
               \cup Derived(e)),
    {"SearchEnd"} \cup Tag(st.start \in st.args, "start-is-best") \cup Tag(e.luts # <<>>, "tables"))

(* -------------------------- rounding search ------------------------------ *)
(* a point is a sequence of policies [sh, v] with native 0/1 entries *)
ShapeOf(pols) == [i \in 1..Len(pols) |-> pols[i].sh]
Bin(pols) == \A i \in 1..Len(pols) : \A k \in 1..Len(pols[i].v) : pols[i].v[k] \in {0, 1}
FlipsOf(a, b) == UNION {{<<i, k>> : k \in {k \in 1..Len(a[i].v) : a[i].v[k] # b[i].v[k]}} : i \in 1..Len(a)}
JRStart(st, e) == V([Idle EXCEPT !.on = TRUE, !.start = e.pols], If(Bin(e.pols), "starting policies are binary"), {"RoundStart"})
JREval(st, e) ==
  LET ok == Len(e.pols) = Len(st.start) /\ ShapeOf(e.pols) = ShapeOf(st.start) IN
  V([Seen(st, e.pols, e.loss) EXCEPT !.flips = IF ok THEN @ \cup FlipsOf(st.start, e.pols) ELSE @],
    If(ok, "evaluated policies have the tensors' shapes") \cup If(Bin(e.pols), "evaluated policies are binary")
    \cup (IF e.hasapplied THEN If(e.applied = e.pols, "the evaluated policies are those applied to the tensors") ELSE {})
    \cup If(~e.hasfresh \/ DEq(e.loss, e.fresh), "the evaluated network is the current one"),
    {"RoundEval"} \cup Tag(DSgn(e.loss) = 0, "zero-cost") \cup Tag(DSgn(e.loss) < 0, "negative-cost")
    \cup Tag(~Finite(e.loss), "cost-not-finite"))
JREnd(st, e) ==
  IF ~e.ok THEN V(Idle, {"rounding search raises"}, {})
  ELSE LET ok == Len(e.pols) = Len(st.start) /\ ShapeOf(e.pols) = ShapeOf(st.start)
           elems == UNION {{<<i, k>> : k \in 1..Len(st.start[i].v)} : i \in 1..Len(st.start)} IN
  V(Idle,
    If(ok, "returned policies have the tensors' shapes") \cup If(Bin(e.pols), "returned policies are binary")
    \cup (IF st.n > 0 THEN If(e.pols \in st.args, "returned policies have the smallest evaluated cost") ELSE {})
    \cup (IF st.n > 0 /\ e.hascost THEN If(Finite(e.cost) /\ DEq(e.cost, st.min), "reported cost is the smallest evaluated") ELSE {})
    \cup (IF e.hasre THEN If(Finite(e.reloss) /\ DEq(e.reloss, st.min), "re-evaluated cost is the smallest evaluated") ELSE {})
    \cup If(e.given = st.start, "starting policies unaltered")
    \cup (IF e.hasapplied THEN If(e.applied = e.pols, "the policies applied to the tensors are the returned ones") ELSE {})
    \cup (IF e.cover THEN If(ok => st.flips = elems, "every element can be flipped") ELSE {}),
    {"RoundEnd"} \cup Tag(st.start \in st.args, "start-is-best") \cup Tag(e.cover, "coverage") \cup Tag(\E i \in 1..Len(st.start) : Len(st.start[i].sh) > 1, "matrix"))

SStep(st, e) ==
  CASE e.ev = "SStart" -> JSStart(st, e)
    [] e.ev = "SEval" -> JSEval(st, e)
    [] e.ev = "SEnd" -> JSEnd(st, e)
    [] e.ev = "RStart" -> JRStart(st, e)
    [] e.ev = "REval" -> JREval(st, e)
    [] e.ev = "REnd" -> JREnd(st, e)
    [] e.ev = "Exception" -> V(st, {"unexpected error " \o e.what}, {})
    [] OTHER -> V(st, {"unknown event"}, {})
=============================================================================
