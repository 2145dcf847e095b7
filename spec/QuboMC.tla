-------------------------------- MODULE QuboMC --------------------------------
(***************************************************************************)
(* The binary problem of one unit as a state machine: terms are added one  *)
(* variable (pair) at a time; a solver then picks any assignment.  For     *)
(* every layer of the small grid (integer units: y, xr, bias ratio 1) the  *)
(* finished problem's energies equal the reconstruction error up to one    *)
(* constant, whatever the order in which the terms are added, and the      *)
(* minimisers are the same.  The layers are replayed on the code.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, In, Xmax, Ymax
VARIABLES xr, d, todo, q
vars == <<xr, d, todo, q>>
\* xr[s][i]; input In+1 is the bias, whose "input" is 1;  d[s]: y minus the reconstruction of the floors
X(s, i) == IF i = In + 1 THEN 1 ELSE xr[s][i]
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Pairs == {<<i, j>> : i, j \in 1..(In + 1)}
Coef(i, j) == Sum([s \in 1..N |-> IF i = j THEN X(s, i) * (X(s, i) - 2 * d[s]) ELSE X(s, i) * X(s, j)], N)
Init == /\ xr \in [1..N -> [1..In -> (0 - Xmax)..Xmax]] /\ d \in [1..N -> (0 - Ymax)..Ymax]
        /\ todo = Pairs /\ q = [p \in Pairs |-> 0]
Rank(p) == p[1] * 10 + p[2]
Add == \E p \in todo : /\ (\A r \in todo : Rank(p) <= Rank(r)) \/ (\A r \in todo : Rank(p) >= Rank(r))
                       /\ q' = [q EXCEPT ![p] = Coef(p[1], p[2])] /\ todo' = todo \ {p} /\ UNCHANGED <<xr, d>>
Next == Add
Spec == Init /\ [][Next]_vars
Asg == [1..(In + 1) -> {0, 1}]
E(a) == LET ps == {p \in Pairs : a[p[1]] = 1 /\ a[p[2]] = 1}
            row(i) == Sum([j \in 1..(In + 1) |-> IF <<i, j>> \in ps THEN q[<<i, j>>] ELSE 0], In + 1) IN
        Sum([i \in 1..(In + 1) |-> row(i)], In + 1)
Err(a) == Sum([s \in 1..N |-> LET r == d[s] - Sum([i \in 1..(In + 1) |-> X(s, i) * a[i]], In + 1) IN r * r], N)
Const == Sum([s \in 1..N |-> d[s] * d[s]], N)
Encodes == todo = {} => \A a \in Asg : E(a) + Const = Err(a)
SameMin == todo = {} => \A a \in Asg : (\A b \in Asg : E(a) <= E(b)) <=> (\A b \in Asg : Err(a) <= Err(b))
EveryBit == todo = {} => \A i \in 1..(In + 1) : <<i, i>> \in DOMAIN q
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [h |-> [xr : [1..N -> [1..In -> (0 - Xmax)..Xmax]], d : [1..N -> (0 - Ymax)..Ymax]]])
=============================================================================
