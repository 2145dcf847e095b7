----------------------------- MODULE QuantizerMC -----------------------------
(* Exhaustive model of affine quantisation on a small rational grid          *)
(* (x = a/8, s = b/8), with the guarantees of C01-C03 as invariants, and the *)
(* generator of the cases replayed into the code.                            *)
EXTENDS Quantizer
CONSTANTS AMax, BMax, ZMax, MaxBits
VARIABLES ty, b, z, a, q        \* one quantisation per step, sweeping a
mvars == <<ty, b, z, a, q>>

Lo(t) == IF t.signed THEN -Pow2(t.bits - 1) ELSE 0
Hi(t) == IF t.signed THEN Pow2(t.bits - 1) - 1 ELSE Pow2(t.bits) - 1
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
NearestFn(x, sb, zz, t) == Clip(((2 * x + sb) \div (2 * sb)) + zz, Lo(t), Hi(t))
FloorFn(x, sb, zz, p, t) == Clip((x \div sb) + zz + p, Lo(t), Hi(t))

Types == {[signed |-> sg, bits |-> n] : sg \in BOOLEAN, n \in 2..MaxBits}
MInit == /\ ty \in Types /\ b \in 1..BMax /\ z \in -ZMax..ZMax
         /\ a = -AMax /\ q = NearestFn(a, b, z, ty)
MNext == /\ a < AMax /\ a' = a + 1 /\ q' = NearestFn(a', b, z, ty)
         /\ UNCHANGED <<ty, b, z>>
Rat8(v) == DScale(DInt(v), -3)

InRange == Lo(ty) <= q /\ q <= Hi(ty)
(* the relation used to judge the code has exactly the function's value as solution *)
RelationIsFunction == \A r \in Lo(ty)..Hi(ty) :
   FloorRelE(Rat8(a), Rat8(b), DInt(z), DHalf, ty, DInt(r), D0) <=> (r = q)
PolicyRelation == \A p \in {0, 1} : \A r \in Lo(ty)..Hi(ty) :
   FloorRelE(Rat8(a), Rat8(b), DInt(z), DInt(p), ty, DInt(r), D0) <=> (r = FloorFn(a, b, z, p, ty))
(* nearest is always one of the two policy outcomes (saturated) *)
BaseExists == q \in {FloorFn(a, b, z, 0, ty), FloorFn(a, b, z, 1, ty)}
RoundTrip == NearestFn((q - z) * b, b, z, ty) = q
HalfStep == ((Lo(ty) - z) * b <= a /\ a <= (Hi(ty) - z) * b) => 2 * AbsI((q - z) * b - a) <= b
Monotone == [][q' >= q]_mvars

Groups == {<<t, sb, zz>> : t \in Types, sb \in 1..BMax, zz \in -ZMax..ZMax}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq({[signed |-> g[1].signed, bits |-> g[1].bits, b |-> g[2], z |-> g[3], amax |-> AMax] : g \in Groups}))
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
