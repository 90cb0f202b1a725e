---------------------------- MODULE TileProtocol -----------------------------
(* How the tiled programs talk.  Rank 0 produces: it hands every tile out   *)
(* twice, the second time only after all first answers are in, and dismisses *)
(* everybody once all second answers are in.  The other ranks consume: one   *)
(* message at a time, each answered before the next is taken.                *)
(* A state: net - for every (sender, receiver) the messages on their way, in *)
(* order; probed - for every rank the message it has looked at; busy - the   *)
(* job a consumer works on (-1 idle, 0 dismissed); counters of the producer. *)
(* Messages are records with fields id and tag.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
KILL == 0
FIRST == 2
SECOND == 3
DONE1 == 2
DONE2 == 4
Start(n) == [net |-> [a \in 0..n-1 |-> [b \in 0..n-1 |-> <<>>]], probed |-> [a \in 0..n-1 |-> 0], busy |-> [a \in 0..n-1 |-> -1],
             sent1 |-> 0, got1 |-> 0, sent2 |-> 0, got2 |-> 0, kills |-> {}]
\* The rank may send this message now: what it says about the rank's state.
MaySend(s, live, a, b, tag) ==
  IF a = 0 THEN /\ b # 0
                /\ \/ tag = FIRST /\ s.sent1 < live
                   \/ tag = SECOND /\ s.got1 = live /\ s.sent1 = live /\ s.sent2 < live
                   \/ tag = KILL /\ s.got2 = live /\ s.sent2 = live /\ b \notin s.kills
  ELSE b = 0 /\ ((s.busy[a] = FIRST /\ tag = DONE1) \/ (s.busy[a] = SECOND /\ tag = DONE2))
Sent(s, a, b, tag, m) ==
  LET t == [s EXCEPT !.net[a][b] = Append(@, m)] IN
  IF a # 0 THEN [t EXCEPT !.busy[a] = -1]
  ELSE IF tag = FIRST THEN [t EXCEPT !.sent1 = @ + 1]
  ELSE IF tag = SECOND THEN [t EXCEPT !.sent2 = @ + 1]
  ELSE [t EXCEPT !.kills = @ \cup {b}]
\* A rank sees the oldest message somebody sent it.
MayProbe(s, b, a, id) == s.net[a][b] # <<>> /\ Head(s.net[a][b]).id = id
Probed(s, b, id) == [s EXCEPT !.probed[b] = id]
\* It receives the oldest message of that sender, the one it looked at.
MayReceive(s, b, a, id) ==
  /\ s.net[a][b] # <<>> /\ Head(s.net[a][b]).id = id
  /\ s.probed[b] \in {0, id}
  /\ (b # 0 => s.busy[b] = -1)
Received(s, b, a) ==
  LET m == Head(s.net[a][b])
      t == [s EXCEPT !.net[a][b] = Tail(@), !.probed[b] = 0]
  IN IF b # 0 THEN [t EXCEPT !.busy[b] = m.tag]
     ELSE IF m.tag = DONE1 THEN [t EXCEPT !.got1 = @ + 1] ELSE [t EXCEPT !.got2 = @ + 1]
Finished(s, n, live) ==
  /\ s.got2 = live /\ s.kills = 1..n-1
  /\ \A a \in 1..n-1 : s.busy[a] = KILL
  /\ \A a \in 0..n-1 : \A b \in 0..n-1 : s.net[a][b] = <<>>

(* A recorded run: a sequence of events <<kind, rank, peer, tag, id>>.       *)
RECURSIVE Follow(_, _, _, _)
Follow(s, live, log, k) ==   \* number of the first event that does not fit, or the final state
  IF k > Len(log) THEN [bad |-> 0, s |-> s]
  ELSE LET e == log[k] IN
    IF e[1] \in {"s", "i"}
    THEN IF MaySend(s, live, e[2], e[3], e[4]) THEN Follow(TLCEval(Sent(s, e[2], e[3], e[4], [id |-> e[5], tag |-> e[4]])), live, log, k + 1) ELSE [bad |-> k, s |-> s]
    ELSE IF e[1] = "p"
    THEN IF MayProbe(s, e[2], e[3], e[5]) THEN Follow(TLCEval(Probed(s, e[2], e[5])), live, log, k + 1) ELSE [bad |-> k, s |-> s]
    ELSE IF MayReceive(s, e[2], e[3], e[5]) THEN Follow(TLCEval(Received(s, e[2], e[3])), live, log, k + 1) ELSE [bad |-> k, s |-> s]
=============================================================================
