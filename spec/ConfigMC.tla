------------------------------ MODULE ConfigMC ------------------------------
(***************************************************************************)
(* Histories of operations on two configuration objects.  Every history of *)
(* MaxOps operations is explored and replayed on the real objects.         *)
(***************************************************************************)
EXTENDS Config
CONSTANTS MaxOps, Names
VARIABLES cfgs, hist
cvars == <<cfgs, hist>>
Op(op, id, from, name, sym) == [op |-> op, id |-> id, from |-> from, name |-> name, sym |-> sym]
Do(h) == [cfgs EXCEPT ![h.id] =
  CASE h.op = "new" -> DefCfg
    [] h.op = "set" -> [cfgs[h.id] EXCEPT !.dense.sym = h.sym, !.param = IF h.sym THEN @ ELSE 3]
    [] h.op = "specific" -> [cfgs[h.id] EXCEPT !.spec = [n \in DOMAIN @ \cup {h.name} |-> IF n = h.name THEN [DefDense EXCEPT !.sym = h.sym, !.kern = "int4"] ELSE @[n]]]
    [] h.op = "preset" -> Preset(cfgs[h.id])
    [] h.op = "load" -> cfgs[h.from]]
Ids == {1, 2}
Ops == {Op("new", i, 0, "", FALSE) : i \in Ids} \cup {Op("set", i, 0, "", b) : i \in Ids, b \in BOOLEAN}
       \cup {Op("specific", i, 0, n, b) : i \in Ids, n \in Names, b \in BOOLEAN} \cup {Op("preset", i, 0, "", FALSE) : i \in Ids}
       \cup {Op("load", 2, 1, "", FALSE), Op("load", 1, 2, "", FALSE)}
MInit == cfgs = [i \in Ids |-> DefCfg] /\ hist = <<>>
MNext == Len(hist) < MaxOps /\ \E h \in Ops : cfgs' = Do(h) /\ hist' = Append(hist, h)
(* the last operation decides *)
LastOp == IF hist = <<>> THEN "none" ELSE hist[Len(hist)].op
LastId == IF hist = <<>> THEN 1 ELSE hist[Len(hist)].id
AllSym(c) == c.dense.sym /\ \A n \in DOMAIN c.spec : c.spec[n].sym
PresetOk == LastOp = "preset" => LET c == cfgs[LastId] IN AllSym(c) /\ c.ada = NoOpt /\ c.param = -1 /\ Preset(c) = c /\ \A n \in Names : Effective(c, n).sym
NoLeak == hist # <<>> /\ Len(hist) > 0 => \A i \in Ids : i \notin {hist[k].id : k \in 1..Len(hist)} => cfgs[i] = DefCfg
Histories == [1..MaxOps -> Ops]
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [ops |-> SetToSeq(Ops)])
=============================================================================
