-------------------------------- MODULE Lut --------------------------------
(***************************************************************************)
(* Reduced lookup tables: the head and the tail of a table are replaced by *)
(* run-length intervals (C05).  The model carries the algorithm itself, so *)
(* TLC checks losslessness over every small table, and the judge compares  *)
(* what the code answers with the original table.                          *)
(***************************************************************************)
EXTENDS Verdict

(* run-length prefix of t, at most `depth` runs (0: all): <<end, value>> pairs *)
RECURSIVE Runs(_, _, _, _)
Runs(t, i, depth, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF Len(acc) > 0 /\ acc[Len(acc)][2] = t[i]
       THEN Runs(t, i + 1, depth, [acc EXCEPT ![Len(acc)] = <<i, t[i]>>])
       ELSE IF Len(acc) = depth /\ depth > 0 THEN acc
            ELSE Runs(t, i + 1, depth, Append(acc, <<i, t[i]>>))
Shift(r) == IF r = <<>> THEN 0 ELSE r[Len(r)][1]

Rev(t) == [i \in 1..Len(t) |-> t[Len(t) + 1 - i]]
(* the reduced form of a table; tail offsets are 0-based positions in the whole table *)
Reduce(t, depth, asym) ==
  LET h    == Runs(t, 1, depth, <<>>)
      base == IF asym THEN SubSeq(t, Shift(h) + 1, Len(t)) ELSE t
      off  == IF asym THEN Shift(h) ELSE 0
      r    == Runs(Rev(base), 1, depth, <<>>)
      tail == [i \in 1..Len(r) |-> <<off + Len(base) - r[i][1], r[i][2]>>]
  IN [ls |-> Shift(h), lt |-> h, rs |-> Shift(r), rt |-> tail,
      mid |-> SubSeq(t, Shift(h) + 1, Len(t) - Shift(r))]
First(s, P(_)) == s[CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])]
Read(o, i) ==   \* i is 0-based
  IF i < o.ls THEN First(o.lt, LAMBDA p : i < p[1])[2]
  ELSE IF i - o.ls < Len(o.mid) THEN o.mid[i - o.ls + 1]
       ELSE First(o.rt, LAMBDA p : i >= p[1])[2]
Length(o) == IF o.rt = <<>> THEN o.ls ELSE o.rt[Len(o.rt)][1] + o.rs

JReduce(e) ==
  LET n == Len(e.tab)  Same(s) == s = e.tab IN
  V("none",
    If(e.built, "reducing raises")
    \cup (IF ~e.built THEN {} ELSE
       If(Same(e.reads), "reading the reduced table") \cup If(Same(e.iter), "iterating the reduced table")
       \cup If(Same(e.after), "original table unchanged")
       \cup If(Same(e.rl), "reading after reload") \cup If(Same(e.itl), "iterating after reload")
       \cup If(Same(e.rj), "reading after JSON round trip") \cup If(Same(e.itj), "iterating after JSON round trip")
       \cup If(Same(e.reads2), "reading again")),
    {"Reduce"} \cup Tag(e.asym, "asymmetric") \cup Tag(e.depth = 0, "depth-0") \cup Tag(n = 1, "single-entry")
    \cup Tag(n >= 256, "full-size") \cup Tag(n > 60000, "16-bit-size")
    \cup Tag(n > 0 /\ n <= 600 /\ LET o == Reduce(e.tab, e.depth, e.asym) IN o.ls + o.rs < n, "kept-middle")
    \cup Tag(n > 0 /\ n <= 600 /\ LET o == Reduce(e.tab, e.depth, e.asym) IN o.ls + o.rs > n, "overlapping-ends")
    \cup Tag(n > 0 /\ n <= 600 /\ e.asym /\ LET o == Reduce(e.tab, e.depth, e.asym) IN o.ls > 0 /\ Len(o.rt) > 1, "asymmetric-multi-run-tail"))

LStep(s, e) == CASE e.ev = "Reduce" -> JReduce(e)
                 [] e.ev = "Exception" -> V("none", {"unexpected error " \o e.what}, {})
                 [] OTHER -> V("none", {"unknown event"}, {})
=============================================================================
