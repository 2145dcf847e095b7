------------------------------- MODULE CalibMC -------------------------------
(* Exhaustive model of min/max calibration over integers: samples in [-a, b] *)
(* (in units where the step is a+b and one unit is n = number of steps).     *)
(* Sweeping one sample x over the whole range shows that every sample of     *)
(* every range is represented as Calib.tla demands.                          *)
EXTENDS Calib
CONSTANTS NMax, MaxBits
VARIABLES ty, a, b, forced, x
mvars == <<ty, a, b, forced, x>>
Lo(t) == IF t.signed THEN -Pow2(t.bits - 1) ELSE 0
Hi(t) == IF t.signed THEN Pow2(t.bits - 1) - 1 ELSE Pow2(t.bits) - 1
RoundEven(p, q) == LET f == p \div q  r == 2 * (p - f * q) IN
                   IF r > q \/ (r = q /\ f % 2 = 1) THEN f + 1 ELSE f
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Nst(t) == Hi(t) - Lo(t)
(* free: unit 1/n, step s = a + b.  forced: unit 1/m, step = max(a, b) with m = 2^(bits-1), or Hi when symmetric *)
M(f, t) == IF f = "sym" THEN Hi(t) ELSE IF t.signed THEN -Lo(t) ELSE Hi(t)
Den(f, t) == IF f = "free" THEN Nst(t) ELSE M(f, t)
S == IF forced = "free" THEN a + b ELSE MaxI(a, b)
Z == IF forced = "free" THEN RoundEven(a * Hi(ty) + b * Lo(ty), a + b) ELSE 0
Q(v) == Clip(((2 * v * Den(forced, ty) + S) \div (2 * S)) + Z, Lo(ty), Hi(ty))
Types == {[signed |-> sg, bits |-> n] : sg \in BOOLEAN, n \in 2..MaxBits}
MInit == /\ ty \in Types /\ a \in 0..NMax /\ b \in 0..NMax /\ a + b > 0
         /\ forced \in {"free", "zero", "sym"} /\ (forced = "sym" => ty.signed) /\ (~ty.signed /\ forced # "free" => a = 0)
         /\ x = -a
MNext == x < b /\ x' = x + 1 /\ UNCHANGED <<ty, a, b, forced>>
Ev == [t |-> ty, s |-> DInt(S), z |-> DInt(Z), f32 |-> FALSE, sym |-> forced = "sym",
       x |-> [sh |-> <<1>>, v |-> <<DInt(x * Den(forced, ty))>>], q |-> [sh |-> <<1>>, v |-> <<DInt(Q(x))>>]]
InRange == Lo(ty) <= Z /\ Z <= Hi(ty)
Free == forced = "free" => Represented(Ev, 1).sat /\ Represented(Ev, 1).err
Forced == forced # "free" => ForcedFits(Ev, 1) /\ ForcedRebuilt(Ev, 1)
ZeroExact == Q(0) = Z
Groups == {<<i, j>> \in (0..NMax) \X (0..NMax) : i + j > 0}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq({[a |-> g[1], b |-> g[2]] : g \in Groups}))
=============================================================================
