-------------------------------- MODULE Remote --------------------------------
(***************************************************************************)
(* Remote inference over a message bus (C23).  A call cuts its batch into   *)
(* chunks, sends one request per chunk and waits for its answer; the bus    *)
(* delays, duplicates, reorders and loses answers.  Requests are numbered   *)
(* in the order they are sent, over all calls.  RemoteMC is the protocol as *)
(* a state machine; JCall relates one recorded call of the real client to   *)
(* the batch, the requests it sent, the answers and their delivery.         *)
(***************************************************************************)
EXTENDS Verdict

RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN <<>> ELSE Cat(f, k - 1) \o f[k]
Sent(e) == Cat([k \in 1..Len(e.sent) |-> e.sent[k].v], Len(e.sent))
Answer(e) == Cat([k \in 1..Len(e.sent) |-> e.sent[k].a], Len(e.sent))
Rows(e) == IF Len(e.sent) = 0 THEN 0 ELSE LET f[k \in 0..Len(e.sent)] == IF k = 0 THEN 0 ELSE f[k - 1] + e.sent[k].sh[1] IN f[Len(e.sent)]
InTime(r) == \E i \in 1..Len(r.del) : r.del[i] = r.id
(* e: n samples of width d, x their values, max; sent: per request id, sh, v, a (its answer, w values per sample), del (answers     *)
(* delivered while it was the one waited for); ok, osh, out; clear: the bus showed this call nothing but its own answers, in time   *)
JCall(s, e) ==
  LET K == Len(e.sent)  stale == \E k \in 1..K : \E i \in 1..Len(e.sent[k].del) : e.sent[k].del[i] # e.sent[k].id IN
  V(s,
    If(\A k \in 1..K : Len(e.sent[k].sh) = 2 /\ e.sent[k].sh[1] >= 1 /\ e.sent[k].sh[1] <= e.max /\ e.sent[k].sh[2] = e.d
                       /\ Len(e.sent[k].v) = e.sent[k].sh[1] * e.d, "chunk size")
    \cup If(Len(Sent(e)) <= Len(e.x) /\ Sent(e) = SubSeq(e.x, 1, Len(Sent(e))), "chunks hold the samples once and in order")
    \cup If(e.models = <<e.net>> \/ (K = 0 /\ ~e.ok), "network sent before the samples")
    \cup (IF e.ok THEN If(Sent(e) = e.x, "every sample is sent")
                       \cup If(e.out = Answer(e) /\ e.osh = <<e.n, e.w>>, "result is the concatenation of the answers to its chunks")
                       \cup If(\A k \in 1..K : InTime(e.sent[k]), "result without an answer")
          ELSE If(~(e.clear /\ e.n >= 1 /\ \A k \in 1..K : InTime(e.sent[k])), "answered call returns a result")),
    {"Call"} \cup Tag(e.ok, "returned") \cup Tag(~e.ok, "reported-none") \cup Tag(stale, "stale-answer") \cup Tag(stale /\ e.ok, "stale-ignored")
    \cup Tag(K > 1, "many-chunks") \cup Tag(e.n < e.max, "smaller-than-a-chunk") \cup Tag(e.n % e.max # 0 /\ e.n > e.max, "uneven-chunks")
    \cup Tag(e.n = 0, "empty-batch") \cup Tag(\E k \in 1..K : Cardinality({i \in 1..Len(e.sent[k].del) : e.sent[k].del[i] = e.sent[k].id}) > 1, "duplicated-answer")
    \cup Tag(e.nested, "overlapping-calls") \cup Tag(e.fresh, "new-client") \cup Tag(\E k \in 1..K : ~InTime(e.sent[k]), "lost-answer"))

(* the remote loss evaluation: one number per request *)
JLoss(s, e) ==
  V(s, (IF e.ok THEN If(e.out = e.want, "loss is the answer to its own request") ELSE If(~(e.clear /\ e.intime), "answered loss returns a result"))
       \cup If(e.models = <<e.net>>, "network sent for the loss"),
    {"Loss"} \cup Tag(e.ok, "loss-returned") \cup Tag(~e.ok, "loss-none"))

(* a batch and its answer as packets: identifier, one row per sample, the values in row order; reading an answer gives them back *)
JPack(s, e) ==
  LET shape(v) == <<e.n, Len(v) \div e.n>>
      same(p, v) == p.id = e.id /\ p.sh = shape(v) /\ p.v = v IN
  V(s, IF ~e.ok THEN {"packing raises"}
       ELSE If(same(e.inp, e.x), "packet of the samples")
            \cup If(same(e.res, e.y), "packet of the answer")
            \cup If(e.bsh = shape(e.y) /\ e.back = e.y, "answer read from its packet"),
    {"Pack"} \cup {"pack-" \o e.how})

RStep(s, e) ==
  CASE e.ev = "Call" -> JCall(s, e)
    [] e.ev = "Loss" -> JLoss(s, e)
    [] e.ev = "Pack" -> JPack(s, e)
    [] e.ev = "Exception" -> V(s, {"unexpected error " \o e.what}, {})
=============================================================================
