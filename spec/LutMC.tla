------------------------------- MODULE LutMC -------------------------------
(* Every table of up to N entries over 0..K, every depth, both symmetries;   *)
(* the object is built, serialised and reloaded in any order.                *)
EXTENDS Lut
CONSTANTS N, K, DepMax
VARIABLES tab, depth, asym, obj, doc, phase
vars == <<tab, depth, asym, obj, doc, phase>>
Tables == UNION {[1..n -> 0..K] : n \in 1..N}
None == [ls |-> 0, lt |-> <<>>, rs |-> 0, rt |-> <<>>, mid |-> <<>>]
Init == /\ tab \in Tables /\ depth \in 0..DepMax /\ asym \in BOOLEAN
        /\ obj = None /\ doc = None /\ phase = "new"
Build == phase = "new" /\ obj' = Reduce(tab, depth, asym) /\ phase' = "built" /\ UNCHANGED <<tab, depth, asym, doc>>
Save == phase \in {"built", "loaded"} /\ doc' = obj /\ phase' = "saved" /\ UNCHANGED <<tab, depth, asym, obj>>
Load == phase = "saved" /\ obj' = doc /\ phase' = "loaded" /\ UNCHANGED <<tab, depth, asym, doc>>
Next == Build \/ Save \/ Load
Spec == Init /\ [][Next]_vars
Lossless == phase # "new" => /\ Length(obj) = Len(tab)
                             /\ \A i \in 1..Len(tab) : Read(obj, i - 1) = tab[i]
DepthBound == (phase # "new" /\ depth > 0) => Len(obj.lt) <= depth /\ Len(obj.rt) <= depth
NoGrowth == Len(obj.mid) <= Len(tab)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq({[tab |-> t, depth |-> d, asym |-> a] : t \in Tables, d \in 0..DepMax, a \in BOOLEAN}))
=============================================================================
