------------------------------ MODULE NumCross ------------------------------
(* The operators of Num that TLC evaluates natively (spec/native/Num.java),  *)
(* tabulated on wide and special operands: the tables of a run with and one  *)
(* without the native versions must be the same (setup.py).                  *)
EXTENDS Num, Json, IOUtils, FiniteSets
VARIABLE x
M == <<1>>
Mants == << <<1>>, <<4095>>, <<0, 1>>, <<4095, 4095>>, <<1, 0, 0, 1>>, <<4095, 4095, 4095, 4095, 4095>>, <<2048, 0, 0, 0, 0, 1>>, <<0, 0, 0, 0, 0, 0, 1>>,
            <<4095, 4095, 4095, 4095, 4095, 4095, 4095>>, <<1234, 4001, 77, 3, 909, 2222, 4000, 17>>, <<8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5>> >>
Exps == <<0, -1, -12, -23, -61, 5, 12, 40>>
Ops == {D0} \cup {<<s, Mants[i], Exps[j]>> : s \in {-1, 1}, i \in 1..Len(Mants), j \in 1..Len(Exps)}
Init == x \in Ops
Next == UNCHANGED x
Row(a) == [a |-> a, f |-> DFloor(a), r |-> {<<b, DAdd(a, b), DMul(a, b), DCmp(a, b), DSub(a, b)>> : b \in Ops}]
Emit == JsonSerialize(IOEnv.OUT, <<{Row(a) : a \in Ops}>>)
=============================================================================
