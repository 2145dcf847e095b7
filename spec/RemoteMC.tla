------------------------------- MODULE RemoteMC -------------------------------
(***************************************************************************)
(* The request/answer protocol.  Chunks[c] chunks in call c; every answer   *)
(* may be delivered up to Copies times at any moment after its request was  *)
(* sent, or never; the client may give up at any moment.  A client that     *)
(* matches answers to its pending request (Match) never returns a result    *)
(* holding the answer to another request; TLC refutes it for one that does  *)
(* not.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Chunks, Copies, Match
VARIABLES call, chunk, sent, left, pending, got, parts, results, owner
vars == <<call, chunk, sent, left, pending, got, parts, results, owner>>
Calls == Len(Chunks)
Init == call = 1 /\ chunk = 0 /\ sent = 0 /\ left = <<>> /\ pending = 0 /\ got = 0 /\ parts = <<>> /\ results = <<>> /\ owner = <<>>
(* a request; the previous result buffer is cleared first *)
Send == /\ call <= Calls /\ pending = 0 /\ chunk < Chunks[call]
        /\ sent' = sent + 1 /\ left' = Append(left, Copies) /\ pending' = sent + 1 /\ got' = 0 /\ owner' = Append(owner, <<call, chunk + 1>>)
        /\ UNCHANGED <<call, chunk, parts, results>>
Deliver(a) == /\ a \in 1..sent /\ left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
              /\ got' = IF pending = 0 THEN got ELSE IF Match /\ a # pending THEN got ELSE a
              /\ UNCHANGED <<call, chunk, sent, pending, parts, results, owner>>
Wake == /\ pending # 0 /\ got # 0 /\ parts' = Append(parts, got) /\ chunk' = chunk + 1 /\ pending' = 0
        /\ UNCHANGED <<call, sent, left, got, results, owner>>
Lost(a) == a \in 1..sent /\ left[a] > 0 /\ left' = [left EXCEPT ![a] = 0] /\ UNCHANGED <<call, chunk, sent, pending, got, parts, results, owner>>
Over(r) == results' = Append(results, r) /\ call' = call + 1 /\ chunk' = 0 /\ parts' = <<>>
GiveUp == pending # 0 /\ got = 0 /\ pending' = 0 /\ Over(<<0>>) /\ UNCHANGED <<sent, left, got, owner>>
Return == call <= Calls /\ pending = 0 /\ chunk = Chunks[call] /\ Over(parts) /\ UNCHANGED <<sent, left, pending, got, owner>>
Next == Send \/ Wake \/ GiveUp \/ Return \/ \E a \in 1..sent : Deliver(a) \/ Lost(a)
Spec == Init /\ [][Next]_vars
(* every returned result holds the answers to this call's chunks, in order *)
OwnAnswers == \A c \in 1..Len(results) : results[c] # <<0>> => [k \in 1..Len(results[c]) |-> owner[results[c][k]]] = [k \in 1..Chunks[c] |-> <<c, k>>]
PartsOwn == [k \in 1..Len(parts) |-> owner[parts[k]]] = [k \in 1..Len(parts) |-> <<call, k>>]
C12 == <<1, 2>>
C21 == <<2, 1>>
C122 == <<1, 2, 2>>
(* delivery schedules handed to the real client: per request, the answers delivered while it is waited for; between the two calls, late ones *)
Seqs(S, k) == UNION {[1..j -> S] : j \in 0..k}
Schedules == {<<a, b, c, d>> : a \in Seqs(1..1, 2), b \in Seqs(1..2, 2), c \in Seqs(1..3, 2), d \in Seqs(1..2, 1)}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.OUT, [h |-> Schedules])
=============================================================================
