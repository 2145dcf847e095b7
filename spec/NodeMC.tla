-------------------------------- MODULE NodeMC --------------------------------
(***************************************************************************)
(* Every history of node operations up to MaxLen on a small node: one      *)
(* datum, scales 1 and 2, a policy bit, a two-parameter table and an       *)
(* output node.  Derived data is rebuilt by every operation that changes   *)
(* what it depends on, except updates that defer it.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen
Ops == {"update", "defer", "reset_s", "reset_z", "policy", "badpolicy", "reset_r", "tablepolicy", "out", "outdefer", "hook", "flags"}
X == 5                                  \* datum, in half units
Lo == -2  Hi == 1
Clip(v) == IF v < Lo THEN Lo ELSE IF v > Hi THEN Hi ELSE v
Quant(s, z, p) == Clip((X \div (2 * s)) + z + p)
Entry(s, z, os, oz, p, q) == Clip((((q - z) * s) \div os) + oz + p)
Table(s, z, os, oz, p) == [q \in Lo..Hi |-> Entry(s, z, os, oz, p, q)]

VARIABLES s, z, p, q, os, oz, tp, tab, fresh, heard, changes, hist
vars == <<s, z, p, q, os, oz, tp, tab, fresh, heard, changes, hist>>
Init == /\ s = 1 /\ z = 0 /\ p = 1 /\ q = Quant(1, 0, 1) /\ os = 1 /\ oz = 0 /\ tp = 0 /\ tab = Table(1, 0, 1, 0, 0)
        /\ fresh = TRUE /\ heard = -1 /\ changes = 0 /\ hist = <<>>
Log(o) == Len(hist) < MaxLen /\ hist' = Append(hist, o)
Notify == heard' = IF heard = -1 THEN -1 ELSE heard + 1
Rebuild(s1, z1) == q' = Quant(s1, z1, p) /\ tab' = Table(s1, z1, os, oz, tp) /\ fresh' = TRUE
Update == /\ Log("update") /\ \E a \in {1, 2}, b \in {-1, 0, 1} : s' = a /\ z' = b /\ Rebuild(a, b)
          /\ Notify /\ changes' = changes + 1 /\ UNCHANGED <<p, os, oz, tp>>
Defer == /\ Log("defer") /\ \E a \in {1, 2}, b \in {-1, 1} : s' = a /\ z' = b
         /\ fresh' = FALSE /\ Notify /\ changes' = changes + 1 /\ UNCHANGED <<p, q, os, oz, tp, tab>>
ResetS == Log("reset_s") /\ s' = 1 /\ Rebuild(1, z) /\ Notify /\ changes' = changes + 1 /\ UNCHANGED <<z, p, os, oz, tp>>
ResetZ == Log("reset_z") /\ z' = 0 /\ Rebuild(s, 0) /\ Notify /\ changes' = changes + 1 /\ UNCHANGED <<s, p, os, oz, tp>>
Policy == /\ Log("policy") /\ \E b \in {0, 1} : p' = b /\ q' = Quant(s, z, b)
          /\ UNCHANGED <<s, z, os, oz, tp, tab, fresh, heard, changes>>
BadPolicy == Log("badpolicy") /\ UNCHANGED <<s, z, p, q, os, oz, tp, tab, fresh, heard, changes>>
ResetR == Log("reset_r") /\ p' = 1 /\ q' = Quant(s, z, 1) /\ UNCHANGED <<s, z, os, oz, tp, tab, fresh, heard, changes>>
TablePolicy == /\ Log("tablepolicy") /\ \E b \in {0, 1} : tp' = b /\ tab' = Table(s, z, os, oz, b)
               /\ UNCHANGED <<s, z, p, q, os, oz, fresh, heard, changes>>
Out == /\ \E o \in {"out", "outdefer"} : Log(o)
       /\ \E a \in {1, 2}, b \in {-1, 0} : os' = a /\ oz' = b /\ tab' = Table(s, z, a, b, tp)
       /\ UNCHANGED <<s, z, p, q, tp, fresh, heard, changes>>
Hook == Log("hook") /\ heard' = (IF heard = -1 THEN changes - changes ELSE heard) /\ UNCHANGED <<s, z, p, q, os, oz, tp, tab, fresh, changes>>
Flags == Log("flags") /\ UNCHANGED <<s, z, p, q, os, oz, tp, tab, fresh, heard, changes>>
Next == Update \/ Defer \/ ResetS \/ ResetZ \/ Policy \/ BadPolicy \/ ResetR \/ TablePolicy \/ Out \/ Hook \/ Flags
Spec == Init /\ [][Next]_vars
View == <<s, z, p, q, os, oz, tp, tab, fresh, heard, changes, Len(hist)>>
Current == fresh => q = Quant(s, z, p) /\ tab = Table(s, z, os, oz, tp)
OneStep == fresh => q \in {Quant(s, z, 0), Quant(s, z, 1)}
OnlyDeferred == fresh \/ \E i \in 1..Len(hist) : hist[i] = "defer"
Seqs == [1..MaxLen -> Ops]
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [h |-> Seqs])
=============================================================================
