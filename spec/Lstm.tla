-------------------------------- MODULE Lstm --------------------------------
(***************************************************************************)
(* The quantised recurrent layer of the engine (C13, C14).                 *)
(* C13: one call is a behaviour of the gate recurrence; every recorded     *)
(* intermediate tensor of every time step is related exactly to the ones   *)
(* it is computed from, starting from states that represent zero.          *)
(* C14: a layer is a function of the input prefix: facts learnt from       *)
(* earlier calls (of any batch, length and mode) bind later calls.         *)
(***************************************************************************)
EXTENDS Engine

(* position of every node in the file *)
Kern(op, g) == op.in[1 + g]
Rec(op, g) == op.in[5 + g]
Bias(op, g) == op.in[9 + g]
RAdd(op, g) == op.in[17 + g]
Cell(op) == op.in[22]
GateIn(op, g) == op.in[21 + 2 * g]
GateOut(op, g) == op.in[22 + 2 * g]
CActIn(op) == op.in[31]
CActOut(op) == op.in[32]
Hid(op) == op.out[1]
GI == 1
GF == 2
GC == 3
GO == 4

(* q is one of the two integers around num/den + off, saturated to [lo, hi] *)
Around(num, den, off, lo, hi, q, e) ==
  /\ DIsInt(q) /\ DLe(lo, q) /\ DLe(q, hi)
  /\ DLt(lo, q) => DLt(DMul(DSub(DSub(q, D1), off), den), DAdd(num, e))
  /\ DLt(q, hi) => DLt(num, DAdd(DMul(DSub(DAdd(q, D1), off), den), e))
Slack(a) == DScale(DAbs(a), -40)
Wide == DPow(80)

RECURSIVE ColDot(_, _, _, _, _, _, _, _)
(* sum over n of (x[xo+n] - zx) * (w[(n-1)*u + j] - zw) *)
ColDot(x, xo, zx, w, u, j, zw, n) ==
  IF n = 0 THEN D0 ELSE DAdd(DMul(DSub(x[xo + n], zx), DSub(w[(n - 1) * u + j], zw)), ColDot(x, xo, zx, w, u, j, zw, n - 1))
LutAt(n, q) == LET i == DToInt(q) + n.off + 1 IN IF i \in 1..Len(n.lut) THEN DInt(n.lut[i]) ELSE Wide

(* dimensions of a call *)
Units(op) == Kern(op, 1).v.sh[2]
Feat(op) == Kern(op, 1).v.sh[1]

InterShape(op, e) ==
  LET b == e.x.sh[1]  T == e.x.sh[2]  n == b * Units(op)  i == e.inter IN
  /\ Len(i.ba) = T /\ Len(i.ra) = T /\ Len(i.gate) = T /\ Len(i.cs) = T /\ Len(i.ca) = T /\ Len(i.hs) = T
  /\ \A t \in 1..T : /\ Len(i.ba[t]) = 4 /\ Len(i.ra[t]) = 4 /\ Len(i.gate[t]) = 4
                     /\ \A g \in 1..4 : Len(i.ba[t][g].v) = n /\ Len(i.ra[t][g].v) = n /\ Len(i.gate[t][g].v) = n
                     /\ Len(i.cs[t].v) = n /\ Len(i.ca[t].v) = n /\ Len(i.hs[t].v) = n

StepBad(op, e, t) ==
  LET x == e.x  b == x.sh[1]  T == x.sh[2]  d == x.sh[3]  u == Units(op)  i == e.inter
      ins == op.in[1]  h == Hid(op)  c == Cell(op)
      Cells == {<<r, j>> : r \in 1..b, j \in 1..u}
      P(r, j) == (r - 1) * u + j
      HPrev(r) == IF t = 1 THEN [j \in 1..u |-> h.z] ELSE SubSeq(i.hs[t - 1].v, (r - 1) * u + 1, r * u)
      CPrev(r, j) == IF t = 1 THEN c.z ELSE i.cs[t - 1].v[P(r, j)]
      BaOk(g, r, j) ==
        LET k == Kern(op, g)  rk == Rec(op, g)
            acc == DAdd(ColDot(x.v, ((r - 1) * T + (t - 1)) * d, ins.z, k.v.v, u, j, k.z, d), DSub(Bias(op, g).v.v[j], Bias(op, g).z))
            num == DMul(DMul(k.s, ins.s), acc)
        IN Around(num, DMul(h.s, rk.s), D0, DNeg(Wide), Wide, i.ba[t][g].v[P(r, j)], Slack(num))
      RaOk(g, r, j) ==
        LET rk == Rec(op, g)  ra == RAdd(op, g)
            acc == DAdd(ColDot(HPrev(r), 0, h.z, rk.v.v, u, j, rk.z, u), i.ba[t][g].v[P(r, j)])
            num == DMul(DMul(rk.s, h.s), acc)
        IN Around(num, ra.s, ra.z, TLo(ra.t), THi(ra.t), i.ra[t][g].v[P(r, j)], DAdd(Slack(num), DScale(DMul(ra.s, DAbs(ra.z)), -45)))
      GateOk(g, r, j) == DEq(i.gate[t][g].v[P(r, j)], LutAt(GateIn(op, g), i.ra[t][g].v[P(r, j)]))
      Gate(g, r, j) == DSub(i.gate[t][g].v[P(r, j)], GateOut(op, g).z)
      CsOk(r, j) ==
        LET a == DMul(DMul(GateOut(op, GF).s, c.s), DMul(Gate(GF, r, j), DSub(CPrev(r, j), c.z)))
            m == DMul(DMul(GateOut(op, GI).s, GateOut(op, GC).s), DMul(Gate(GI, r, j), Gate(GC, r, j)))
        IN Around(DAdd(a, m), c.s, c.z, TLo(c.t), THi(c.t), i.cs[t].v[P(r, j)],
                  DAdd(DScale(DMul(c.s, DAbs(c.z)), -45), DAdd(Slack(a), Slack(m))))
      CaOk(r, j) == DEq(i.ca[t].v[P(r, j)], LutAt(CActIn(op), i.cs[t].v[P(r, j)]))
      HsOk(r, j) ==
        LET m == DMul(DMul(GateOut(op, GO).s, CActOut(op).s), DMul(Gate(GO, r, j), DSub(i.ca[t].v[P(r, j)], CActOut(op).z)))
        IN Around(m, h.s, h.z, TLo(h.t), THi(h.t), i.hs[t].v[P(r, j)], DAdd(Slack(m), DScale(DMul(h.s, DAbs(h.z)), -45)))
  IN If(\A g \in 1..4 : \A p \in Cells : BaOk(g, p[1], p[2]), "input product and bias of a gate")
     \cup If(\A g \in 1..4 : \A p \in Cells : RaOk(g, p[1], p[2]), "recurrent sum of a gate")
     \cup If(\A g \in 1..4 : \A p \in Cells : GateOk(g, p[1], p[2]), "gate activation")
     \cup If(\A p \in Cells : CsOk(p[1], p[2]), "cell state") \cup If(\A p \in Cells : CaOk(p[1], p[2]), "cell activation") \cup If(\A p \in Cells : HsOk(p[1], p[2]), "hidden state")

(* outputs as [row][step] -> vector; steps present depend on the mode *)
ResultOk(op, e) ==
  LET b == e.x.sh[1]  T == e.x.sh[2]  u == Units(op)  hs == e.inter.hs IN
  IF e.ret THEN /\ e.y.sh = <<b, T, u>>
                /\ \A r \in 1..b, t \in 1..T, j \in 1..u : DEq(e.y.v[((r - 1) * T + (t - 1)) * u + j], hs[t].v[(r - 1) * u + j])
  ELSE /\ e.y.sh = <<b, u>>
       /\ \A r \in 1..b, j \in 1..u : DEq(e.y.v[(r - 1) * u + j], hs[T].v[(r - 1) * u + j])

JLstm(s, e) ==
  IF ~e.ok THEN V(s, {"recurrent layer raises"}, {}) ELSE
  IF ~InterShape(e.op, e) THEN V(s, {"recurrent layer intermediate shapes"}, {}) ELSE
  V(s, UNION {StepBad(e.op, e, t) : t \in 1..e.x.sh[2]} \cup If(ResultOk(e.op, e), "recurrent layer result")
       \cup If(e.after = e.x, "layer input unchanged"),
    {"Lstm"} \cup Tag(e.x.sh[1] > 1, "lstm-batch") \cup Tag(e.x.sh[2] > 1, "lstm-steps") \cup Tag(e.ret, "lstm-sequences")
    \cup Tag(Hid(e.op).z[1] # 0, "hidden-zero-point") \cup Tag(Cell(e.op).z[1] # 0, "cell-zero-point")
    \cup Tag(\E t \in 1..e.x.sh[2], k \in 1..Len(e.inter.cs[1].v) : DEq(e.inter.cs[t].v[k], THi(Cell(e.op).t)) \/ DEq(e.inter.cs[t].v[k], TLo(Cell(e.op).t)), "cell-saturated")
    \cup Tag(\E t \in 1..e.x.sh[2], g \in 1..4, k \in 1..Len(e.inter.cs[1].v) : DEq(e.inter.ra[t][g].v[k], THi(RAdd(e.op, g).t)), "gate-saturated")
    \cup Tag(\E g \in 1..4 : Rec(e.op, g).z[1] # 0, "recurrent-kernel-zero-point"))

(* ------------------------------ C14 --------------------------------------- *)
(* state of a layer under observation: what its earlier calls have shown.     *)
NoLayer == [t |-> I8, facts |-> <<>>, calls |-> 0]
Rows(e) ==          \* per row of the call: its steps and the output after each step that was returned
  LET b == e.x.sh[1]  T == e.x.sh[2]  d == e.x.sh[3]  u == e.y.sh[Len(e.y.sh)] IN
  [r \in 1..b |->
     [xs |-> [t \in 1..T |-> SubSeq(e.x.v, ((r - 1) * T + (t - 1)) * d + 1, ((r - 1) * T + t) * d)],
      steps |-> IF e.ret THEN 1..T ELSE {T},
      ys |-> [t \in (IF e.ret THEN 1..T ELSE {T}) |->
                IF e.ret THEN SubSeq(e.y.v, ((r - 1) * T + (t - 1)) * u + 1, ((r - 1) * T + t) * u)
                ELSE SubSeq(e.y.v, (r - 1) * u + 1, r * u)]]]
SamePrefix(f, g, k) == \A t \in 1..k : f.xs[t] = g.xs[t]
Agree(f, g) == \A k \in f.steps \cap g.steps : SamePrefix(f, g, k) => f.ys[k] = g.ys[k]
JNewLayer(s, e) == V([t |-> e.t, facts |-> <<>>, calls |-> 0], {}, {"new recurrent layer"})
JCall(s, e) ==
  IF ~e.ok THEN V(s, {"recurrent layer raises"}, {}) ELSE
  LET b == e.x.sh[1]  T == e.x.sh[2]
      shape == IF e.ret THEN Len(e.y.sh) = 3 /\ e.y.sh[1] = b /\ e.y.sh[2] = T ELSE Len(e.y.sh) = 2 /\ e.y.sh[1] = b
  IN IF ~shape THEN V(s, {"recurrent output shape"}, {}) ELSE
  LET rows == Rows(e)  old == s.facts
      Shares(f, g) == f.xs[1] = g.xs[1]
  IN V([s EXCEPT !.facts = old \o rows, !.calls = @ + 1],
       If(\A i \in 1..Len(old), r \in 1..b : Agree(old[i], rows[r]), "output depends only on the prefix")
       \cup If(\A q, r \in 1..b : Agree(rows[q], rows[r]), "rows of a batch are independent")
       \cup If(\A k \in 1..Len(e.y.v) : DIsInt(e.y.v[k]) /\ DLe(TLo(s.t), e.y.v[k]) /\ DLe(e.y.v[k], THi(s.t)), "output in range")
       \cup If(e.after = e.x, "layer input unchanged"),
       {"Call"} \cup Tag(s.calls > 0, "later-call")
       \cup Tag(\E i \in 1..Len(old), r \in 1..b : Shares(old[i], rows[r]) /\ Len(old[i].xs) # T, "other-length")
       \cup Tag(\E i \in 1..Len(old), r \in 1..b : old[i].xs = rows[r].xs, "repeat")
       \cup Tag(\E i \in 1..Len(old), r \in 1..b : Shares(old[i], rows[r]) /\ old[i].xs # rows[r].xs /\ Len(old[i].xs) = T, "other-future")
       \cup Tag(\E i \in 1..Len(old) : Cardinality(old[i].steps) > 1 /\ ~e.ret, "both-modes"))

LStep(s, e) ==
  CASE e.ev = "Lstm" -> JLstm(s, e)
    [] e.ev = "LNew" -> JNewLayer(s, e)
    [] e.ev = "LCall" -> JCall(s, e)
    [] e.ev = "Exception" -> V(s, {"unexpected error " \o e.what}, {})
    [] OTHER -> V(s, {"unknown event"}, {})
=============================================================================
