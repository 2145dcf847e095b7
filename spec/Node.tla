--------------------------------- MODULE Node ---------------------------------
(***************************************************************************)
(* State machine of the quantiser's tensor nodes: current parameters, the  *)
(* rounding policy, the integers derived from them, lookup tables attached *)
(* to a node, hooks, and the bias nodes that follow the scales of an input *)
(* and a kernel.                                                           *)
(*                                                                         *)
(* state: nodes : id -> record, deps : bias id -> <<input id, kernel id>>  *)
(* A node's derived data is only claimed while it is fresh, that is when   *)
(* nothing it depends on has changed since it was last requantised; only   *)
(* updates that explicitly defer requantisation make it stale.             *)
(***************************************************************************)
EXTENDS Quantizer

NodeStart == [nodes |-> <<>>, deps |-> <<>>]
NoLut == [has |-> FALSE, fresh |-> TRUE, fn |-> "none", os |-> D1, oz |-> D0, pol |-> [sh |-> <<>>, v |-> <<>>, ty |-> "i"], out |-> 0]

NodeRec(e) == [s |-> e.s, z |-> e.z, ogs |-> e.s, ogz |-> e.z, t |-> e.t, x |-> e.x, tensor |-> e.tensor, name |-> e.name,
               pol |-> e.pol, ogpol |-> e.pol, fresh |-> TRUE, upd |-> 0, req |-> 0,
               lut |-> NoLut, exb |-> FALSE, ext |-> FALSE, exq |-> FALSE]
Put(st, id, n) == [st EXCEPT !.nodes = [k \in (DOMAIN st.nodes) \cup {id} |-> IF k = id THEN n ELSE st.nodes[k]]]

(* the nodes whose parameters follow from others *)
BiasOf(st) == DOMAIN st.deps
(* tables driven by node o as their output *)
OutOf(st, o) == {k \in DOMAIN st.nodes : st.nodes[k].lut.has /\ st.nodes[k].lut.out = o}

(* a change of parameters of node id; req: derived data is rebuilt *)
SetParams(st, id, s, z, req) ==
  LET n == st.nodes[id]
      n1 == [n EXCEPT !.s = s, !.z = z, !.fresh = req, !.upd = @ + 1, !.req = IF req THEN @ + 1 ELSE @,
                      !.lut = IF n.lut.has THEN [n.lut EXCEPT !.fresh = req] ELSE n.lut]
      st1 == Put(st, id, n1)
      \* the bias follows: product of the current scales, rebuilt
      bs == {b \in BiasOf(st) : id \in {st.deps[b][1], st.deps[b][2]}}
      st2 == [st1 EXCEPT !.nodes = [k \in DOMAIN st1.nodes |->
                IF k \in bs THEN [st1.nodes[k] EXCEPT !.s = DMul(st1.nodes[st.deps[k][1]].s, st1.nodes[st.deps[k][2]].s), !.fresh = TRUE]
                ELSE IF k \in OutOf(st1, id) THEN [st1.nodes[k] EXCEPT !.lut = [@ EXCEPT !.os = s, !.oz = z]]
                ELSE st1.nodes[k]]]
  IN st2

JNew(st, e) ==
  LET n == NodeRec(e)
      ok == e.tensor => SameShape(e.pol, e.x) /\ SameShape(e.q, e.x)
  IN V(Put(st, e.id, n),
       IF ~ok THEN {"shape of a new tensor node"}
       ELSE IF ~e.tensor THEN {}
       ELSE If(All(e.x, LAMBDA i : Nearest(e.x.v[i], e.s, e.z, e.t, e.q.v[i])), "a new node holds the nearest integers")
            \cup If(All(e.pol, LAMBDA i : DEq(e.pol.v[i], D0) \/ DEq(e.pol.v[i], D1)), "initial policy is binary")
            \cup If(All(e.x, LAMBDA i : FloorRel(e.x.v[i], e.s, e.z, e.pol.v[i], e.t, e.q.v[i])), "initial policy is round to nearest"),
       {"New"})

JUpdate(st, e) == V(SetParams(st, e.id, e.s, e.z, e.req), If(e.ok, "update raises"), {"Update"} \cup Tag(~e.req, "deferred"))
JResetS(st, e) == V(SetParams(st, e.id, st.nodes[e.id].ogs, st.nodes[e.id].z, TRUE), If(e.ok, "reset raises"), {"ResetScale"})
JResetZ(st, e) == V(SetParams(st, e.id, st.nodes[e.id].s, st.nodes[e.id].ogz, TRUE), If(e.ok, "reset raises"), {"ResetZeroPoint"})

(* a policy of the right shape is stored and applied; any other is refused and changes nothing *)
JPolicySet(st, e) ==
  LET n == st.nodes[e.id] IN
  IF e.pol.sh = n.x.sh
  THEN V(Put(st, e.id, [n EXCEPT !.pol = e.pol, !.fresh = TRUE]), If(e.ok, "fitting policy refused"), {"SetPolicy"})
  ELSE V(st, If(~e.ok, "misfitting policy accepted"), {"BadPolicy"})
JResetR(st, e) == LET n == st.nodes[e.id] IN
  V(Put(st, e.id, [n EXCEPT !.pol = n.ogpol, !.fresh = TRUE]), If(e.ok, "reset raises"), {"ResetRounding"})

(* entry i of a table: floor(f(x)/s + z) + policy entry, saturated; f either known to the specification or recorded *)
TableRel(n, e, p(_)) ==
  LET N == Len(e.lut.v)
      qv(i) == DAdd(TLo(n.t), DInt(i - 1))
      w(i) == DeqVal(qv(i), n.s, n.z)
      FX(i) == IF Known(n.lut.fn) THEN Fn(n.lut.fn, w(i)) ELSE e.lutref.v[i]
      Slack(i) == IF Known(n.lut.fn) /\ Exact(w(i), n.s, n.z) /\ NIsPow2(n.lut.os[2]) THEN D0
                  ELSE DScale(DAdd(DAdd(DAbs(FX(i)), DMul(DAdd(DAbs(w(i)), D1), DAdd(DAbs(w(i)), D1))), n.lut.os), IF Known(n.lut.fn) THEN -42 ELSE -18)
      OkAt(i) == FloorRelE(FX(i), n.lut.os, n.lut.oz, p(i), n.t, e.lut.v[i], Slack(i))
  IN /\ DEq(DInt(N), DAdd(DSub(THi(n.t), TLo(n.t)), D1)) /\ Len(n.lut.pol.v) = N
     /\ \A i \in 1..N : OkAt(i)
TableOk(n, e) == TableRel(n, e, LAMBDA i : n.lut.pol.v[i])

(* a table for fn is attached to node id; it follows the output node `out' when there is one (0: none) *)
JLut(st, e) ==
  LET n == st.nodes[e.id]
      n1 == [n EXCEPT !.lut = [has |-> TRUE, fresh |-> TRUE, fn |-> e.fn, os |-> e.os, oz |-> e.oz, pol |-> e.pol, out |-> e.out]] IN
  V(Put(st, e.id, n1),
    IF ~e.ok THEN {"attaching a table raises"}
    ELSE If(\A i \in 1..Len(e.pol.v) : DEq(e.pol.v[i], D0) \/ DEq(e.pol.v[i], D1), "initial table policy is binary")
         \cup If(TableRel(n1, e, LAMBDA i : DHalf), "a new table holds the nearest values"), {"AttachTable"} \cup Tag(e.out # 0, "table-with-output-node"))
JLutPolicy(st, e) ==
  LET n == st.nodes[e.id] IN
  V(Put(st, e.id, [n EXCEPT !.lut = [@ EXCEPT !.pol = e.pol]]), If(e.ok, "table policy refused"), {"TablePolicy"})
JFlags(st, e) == V(Put(st, e.id, [st.nodes[e.id] EXCEPT !.exb = e.exb, !.ext = e.ext, !.exq = e.exq]), {}, {"Flags"})
JLink(st, e) == V([st EXCEPT !.deps = [k \in (DOMAIN st.deps) \cup {e.b} |-> IF k = e.b THEN <<e.i, e.k>> ELSE st.deps[k]]], {}, {"Link"})

ScaleIs(st, id, s) == LET w == st.nodes[id].s IN
   IF id \in BiasOf(st) THEN DLe(DDist(s, w), DScale(w, -50)) ELSE DEq(s, w)

JObs(st, e) ==
  LET n == st.nodes[e.id]
      bias == e.id \in BiasOf(st)
      eff == [n EXCEPT !.s = e.s]          \* the bias scale is a rounded product
  IN IF ~e.ok THEN V(st, {"reading a node raises"}, {})
  ELSE V(st,
    If(ScaleIs(st, e.id, e.s), IF bias THEN "bias scale is input scale times kernel scale" ELSE "reported scale")
    \cup If(DEq(e.z, n.z), IF bias THEN "bias zero point" ELSE "reported zero point")
    \cup (IF n.tensor /\ n.fresh
          THEN IF ~SameShape(e.q, n.x) \/ ~SameShape(e.v, n.x) THEN {"shape of the integers"}
               ELSE If(All(n.x, LAMBDA i : FloorRel(n.x.v[i], e.s, n.z, n.pol.v[i], n.t, e.q.v[i])), IF bias THEN "bias integers of the current scale" ELSE "integers of the current parameters")
                    \cup If(All(n.x, LAMBDA i : DeqRel(e.q.v[i], e.s, n.z, e.v.v[i])), "reconstruction of the integers")
                    \cup If(e.x = n.x, "float data unchanged")
          ELSE {})
    \cup (IF n.tensor THEN If(e.pol.sh = n.pol.sh /\ e.pol.v = n.pol.v, "reported policy") ELSE {})
    \cup (IF n.lut.has /\ n.lut.fresh THEN If(e.lut.ty # "E" /\ TableOk(n, e), "table of the current parameters") ELSE {})
    \cup If(e.lut.ty = "E" \/ \A k \in 1..Len(e.calls) : \E i \in 1..Len(e.lut.v) : DEq(DSub(e.calls[k][1], TLo(n.t)), DInt(i - 1)) /\ DEq(e.calls[k][2], e.lut.v[i]), "table answers a value with its entry")
    \cup If(\A h \in 1..Len(e.hooks) : e.hooks[h].since < n.upd => /\ e.hooks[h].calls >= n.upd - e.hooks[h].since
                                                                 /\ ScaleIs(st, e.id, e.hooks[h].s) /\ DEq(e.hooks[h].z, n.z), "dependants notified of every update")
    \cup If(\A h \in 1..Len(e.rhooks) : e.rhooks[h].calls >= n.req - e.rhooks[h].since, "dependants notified of every requantisation")
    \* serialised form
    \cup If(IF n.exq THEN e.j.nos /\ e.j.noz ELSE ~e.j.nos /\ ~e.j.noz /\ DEq(e.j.s, e.s) /\ DEq(e.j.z, e.z), "serialised parameters")
    \cup (IF ~n.tensor THEN If(~e.j.tensor, "serialised tensor")
          ELSE If(/\ e.j.tensor /\ e.j.dtype = n.t /\ e.j.name = n.name
                  /\ e.j.shape = (IF n.exb /\ Len(n.x.sh) > 0 THEN SubSeq(n.x.sh, 2, Len(n.x.sh)) ELSE n.x.sh)
                  /\ IF n.ext THEN e.j.noq ELSE ~e.j.noq /\ e.j.q.sh = e.q.sh /\ e.j.q.v = e.q.v, "serialised tensor"))
    \cup If(e.j.haslut = n.lut.has /\ (n.lut.has => e.j.lut.v = e.lut.v /\ DEq(e.j.off, DNeg(TLo(n.t)))), "serialised table"),
    {"Obs"} \cup Tag(~n.fresh, "stale-by-request") \cup Tag(bias, "bias") \cup Tag(n.lut.has, "with-table") \cup Tag(Len(e.hooks) > 0, "with-hooks")
    \cup Tag(n.upd > 2, "third-update"))

NStep(st, e) ==
  CASE e.ev = "New" -> JNew(st, e)
    [] e.ev = "Reset" -> V(NodeStart, {}, {})
    [] e.ev = "Update" -> JUpdate(st, e)
    [] e.ev = "ResetScale" -> JResetS(st, e)
    [] e.ev = "ResetZp" -> JResetZ(st, e)
    [] e.ev = "ResetRounding" -> JResetR(st, e)
    [] e.ev = "Policy" -> JPolicySet(st, e)
    [] e.ev = "Lut" -> JLut(st, e)
    [] e.ev = "LutPolicy" -> JLutPolicy(st, e)
    [] e.ev = "Flags" -> JFlags(st, e)
    [] e.ev = "Link" -> JLink(st, e)
    [] e.ev = "KeepPolicy" -> V(Put(st, e.id, [st.nodes[e.id] EXCEPT !.pol = e.pol]), {}, {"KeepPolicy"})
    [] e.ev = "Obs" -> JObs(st, e)
    [] e.ev = "Exception" -> V(st, {"unexpected error " \o e.what}, {})
    [] OTHER -> V(st, {"unknown event"}, {})
=============================================================================
