------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Quantisation configurations: a set of live configuration objects, the   *)
(* operations on them, and what a build makes of one.                      *)
(*                                                                         *)
(* A configuration is                                                      *)
(*   [dense |-> S, quantize |-> type name, ada |-> O, param |-> P,         *)
(*    spec |-> function from layer names to S]                             *)
(* with S = [act, badd, bias, kern |-> type names, sym |-> BOOLEAN,        *)
(*           depth |-> Nat, opt |-> O]                                     *)
(*      O = [kind |-> "none" | "base" | "annealer" | "qubo", ...numbers]   *)
(*      P = -1 (no parameter search) or its number of retries              *)
(***************************************************************************)
EXTENDS Verdict

NoOpt == [kind |-> "none", tmin |-> D0, tmax |-> D0, updates |-> 0, steps |-> 0, retries |-> 0]
DefDense == [act |-> "int8", badd |-> "int8", bias |-> "int32", kern |-> "int8", sym |-> FALSE, depth |-> 3, opt |-> NoOpt]
DefCfg == [dense |-> DefDense, quantize |-> "int8", ada |-> NoOpt, param |-> -1, spec |-> [n \in {} |-> DefDense]]

(* a record with some fields replaced *)
With(r, o) == [f \in DOMAIN r |-> IF f \in DOMAIN o THEN o[f] ELSE r[f]]

(* the preset: symmetric kernels everywhere, no search over the network; nothing else *)
Preset(c) == [c EXCEPT !.dense.sym = TRUE, !.ada = NoOpt, !.param = -1,
                       !.spec = [n \in DOMAIN c.spec |-> [c.spec[n] EXCEPT !.sym = TRUE]]]
(* the settings a dense layer is quantised with *)
Effective(c, n) == IF n \in DOMAIN c.spec THEN c.spec[n] ELSE c.dense

(* recorded form: layer entries as a sequence of [name, s] *)
SpecFn(l) == [n \in {l[i].name : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i].name = n].s]
CfgOf(o) == [dense |-> o.dense, quantize |-> o.quantize, ada |-> o.ada, param |-> o.param, spec |-> SpecFn(o.spec)]
(* all live objects as observed after an operation *)
Live(e) == [i \in {e.live[k].id : k \in 1..Len(e.live)} |-> CfgOf(e.live[CHOOSE k \in 1..Len(e.live) : e.live[k].id = i].cfg)]
Put(st, i, c) == [j \in DOMAIN st \cup {i} |-> IF j = i THEN c ELSE st[j]]
NoCfg == [i \in {} |-> DefCfg]

Want(e) == With(DefCfg, [f \in DOMAIN e.over \ {"spec"} |-> e.over[f]])
WantSpec(e) == IF "spec" \in DOMAIN e.over THEN [Want(e) EXCEPT !.spec = SpecFn(e.over.spec)] ELSE Want(e)

After(st, e) ==
  CASE e.op = "new" -> Put(st, e.id, WantSpec(e))
    [] e.op = "set" -> [st EXCEPT ![e.id].dense = With(st[e.id].dense, e.over)]
    [] e.op = "specific" -> [st EXCEPT ![e.id].spec = [n \in DOMAIN st[e.id].spec \cup {e.name} |-> IF n = e.name THEN With(DefDense, e.over) ELSE st[e.id].spec[n]]]
    [] e.op = "preset" -> [st EXCEPT ![e.id] = Preset(st[e.id])]
    [] e.op = "load" -> Put(st, e.id, st[e.from])
    [] OTHER -> st

JOp(st, e) ==
  IF ~e.ok THEN V(st, {"configuration operation raises"}, {})
  ELSE LET w == After(st, e)  o == Live(e) IN
  V(w,
    If(DOMAIN o = DOMAIN w /\ \A i \in DOMAIN w : i # e.id => o[i] = w[i], "other configurations are unaffected")
    \cup If(e.id \in DOMAIN o /\ o[e.id] = w[e.id],
            CASE e.op = "new" -> "a new configuration has the given settings and the defaults"
              [] e.op = "preset" -> "the TFLite preset makes kernels symmetric and drops the searches"
              [] e.op = "load" -> "a configuration read back equals the one written"
              [] OTHER -> "a setting changes what it names only"),
    {e.op} \cup Tag(e.op = "preset" /\ DOMAIN w[e.id].spec # {}, "preset-with-specific-layers") \cup Tag(e.op = "load", e.how) \cup Tag(Cardinality(DOMAIN w) > 1, "two-live"))

(* --------------------------- building ------------------------------------ *)
(* kernels of more than one value (the histogram of one value is one unit wide) are calibrated around zero: largest magnitude over the largest (symmetric) or lowest integer of the type *)
KScaleOk(l, sym) == ~l.varied \/ LET d == IF sym THEN DSub(DPow(l.kbits - 1), D1) ELSE DPow(l.kbits - 1) IN
                    DLe(DDist(DMul(l.ks, d), l.kmax), DScale(l.kmax, -19)) /\ DEq(l.kz, D0)
LayerOk(c, l) == LET s == Effective(c, l.name) IN
  /\ l.kern = s.kern /\ l.badd = s.badd /\ l.bias = s.bias
  /\ (l.hasact => l.act = s.act)
OptLo(o) == IF o.kind = "none" THEN 0 ELSE (IF o.kind = "base" THEN 0 ELSE o.steps) + o.retries
JBuild(st, e) ==
  LET c == st[e.id] IN
  IF ~e.ok THEN V(st, {"building raises"}, {})
  ELSE V(st,
    If(\A i \in 1..Len(e.layers) : LayerOk(c, e.layers[i]), "layers have the configured types")
    \cup (IF e.evals > 0 THEN {} ELSE If(\A i \in 1..Len(e.layers) : KScaleOk(e.layers[i], Effective(c, e.layers[i].name).sym), "kernels are symmetric iff configured"))
    \cup If(e.qin = c.quantize, "the input has the configured type")
    \cup If(CfgOf(e.cfg) = c, "building leaves the configuration as it is")
    \cup If(e.names = [i \in 1..Len(e.layers) |-> e.layers[i].name], "every dense layer is built, in order")
    \cup (LET on == e.loss
              lo == (IF c.param >= 0 THEN c.param ELSE 0) + Len(e.layers) * OptLo(c.ada)
              hi == (IF c.param >= 0 THEN 2 * c.param + 6 ELSE 0) + (IF c.ada.kind = "none" THEN 0 ELSE Len(e.layers) * (OptLo(c.ada) + 6))
          IN If(IF on THEN lo <= e.evals /\ e.evals <= hi ELSE e.evals = 0, "exactly the configured searches run")),
    {"Build"} \cup Tag(\E i \in 1..Len(e.layers) : e.layers[i].name \in DOMAIN c.spec, "specific-layer")
    \cup Tag(e.loss /\ c.ada.kind # "none", "rounding-search") \cup Tag(e.loss /\ c.param >= 0, "parameter-search") \cup Tag(\E i \in 1..Len(e.layers) : e.layers[i].kern # "int8", "other-kernel-type"))

(* an optimiser built from its configuration *)
JOpt(st, e) ==
  IF ~e.ok THEN V(st, {"building an optimiser raises"}, {})
  ELSE V(st,
    If(e.o.kind = "annealer" => e.tmin = e.o.tmin /\ e.tmax = e.o.tmax, "temperatures as configured")
    \cup If(OptLo(e.o) <= e.evals /\ e.evals <= OptLo(e.o) + 6, "steps and retries as configured"),
    {"Optimiser", e.o.kind})

ZStep(st, e) ==
  CASE e.ev = "CStart" -> V(NoCfg, {}, {})
    [] e.ev = "COp" -> JOp(st, e)
    [] e.ev = "CBuild" -> JBuild(st, e)
    [] e.ev = "COpt" -> JOpt(st, e)
    [] e.ev = "Exception" -> V(st, {"unexpected error " \o e.what}, {})
    [] OTHER -> V(st, {"unknown event"}, {})
=============================================================================
