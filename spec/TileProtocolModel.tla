-------------------------- MODULE TileProtocolModel --------------------------
(* All schedules of the protocol: every interleaving, every choice of which  *)
(* sender a wildcard matches, blocking sends buffered or not.                *)
EXTENDS TileProtocol
CONSTANTS N,        \* ranks
          Live,     \* tiles to work on
          Sync,     \* blocking sends wait until they are received
          Loose,    \* faulty: receive with a wildcard after probing with one
          Deaf,     \* faulty: the dismissal is looked at, not received
          Spread    \* faulty: the second round is dealt to other ranks than the first
VARIABLES s, nid, waiting, store, lost, job
vars == <<s, nid, waiting, store, lost, job>>
\* message sizes: first answers of different tiles differ
Size(m) == m.size
Init == /\ s = Start(N) /\ nid = 1 /\ waiting = [a \in 0..N-1 |-> 0] /\ store = [a \in 0..N-1 |-> {}] /\ lost = {} /\ job = [a \in 0..N-1 |-> 0]
Free(a) == waiting[a] = 0
Deal(k, round) == IF round = 2 /\ Spread THEN (k % (N - 1)) + 1 ELSE ((k - 1) % (N - 1)) + 1
Msg(tag, tile, size) == [id |-> nid, tag |-> tag, tile |-> tile, size |-> size]
Post(a, b, tag, tile, size, blocking) ==
  /\ MaySend(s, Live, a, b, tag)
  /\ s' = Sent(s, a, b, tag, Msg(tag, tile, size)) /\ nid' = nid + 1
  /\ waiting' = IF blocking /\ Sync THEN [waiting EXCEPT ![a] = nid] ELSE waiting
\* (the producer's loops are sequential: all sends, then all receipts)
Produce == /\ Free(0)
           /\ \/ /\ s.sent1 < Live /\ LET k == s.sent1 + 1 IN Post(0, Deal(k, 1), FIRST, k, 1, FALSE)
              \/ /\ s.got1 = Live /\ s.sent2 < Live /\ LET k == s.sent2 + 1 IN Post(0, Deal(k, 2), SECOND, k, 1, FALSE)
              \/ /\ s.got2 = Live /\ Cardinality(s.kills) < N - 1 /\ Post(0, Cardinality(s.kills) + 1, KILL, 0, 1, TRUE)
           /\ UNCHANGED <<store, lost, job>>
Answer(c) == /\ Free(c) /\ s.busy[c] \in {FIRST, SECOND}
             /\ Post(c, 0, IF s.busy[c] = FIRST THEN DONE1 ELSE DONE2, job[c], IF s.busy[c] = FIRST THEN 1 + job[c] ELSE 1, TRUE)
             /\ IF s.busy[c] = FIRST THEN store' = [store EXCEPT ![c] = @ \cup {job[c]}] /\ UNCHANGED lost
                ELSE UNCHANGED store /\ lost' = IF job[c] \in store[c] THEN lost ELSE lost \cup {"retained"}
             /\ UNCHANGED job
Look(b) == /\ Free(b) /\ s.probed[b] = 0
           /\ IF b = 0 THEN s.sent1 = Live /\ (s.got1 < Live \/ (s.sent2 = Live /\ s.got2 < Live)) ELSE s.busy[b] = -1
           /\ \E a \in 0..N-1 : s.net[a][b] # <<>> /\ s' = Probed(s, b, Head(s.net[a][b]).id)
           /\ UNCHANGED <<nid, waiting, store, lost, job>>
Take(b) == /\ s.probed[b] # 0
           /\ \E a \in 0..N-1 :
                /\ s.net[a][b] # <<>>
                /\ LET m == Head(s.net[a][b])
                       p == CHOOSE q \in UNION {{s.net[x][b][i] : i \in 1..Len(s.net[x][b])} : x \in 0..N-1} : q.id = s.probed[b]
                   IN /\ (m.id = s.probed[b] \/ Loose)
                      /\ IF Deaf /\ m.tag = KILL THEN s' = [s EXCEPT !.busy[b] = KILL, !.probed[b] = 0] /\ UNCHANGED <<waiting, lost, job>>
                         ELSE /\ s' = Received(s, b, a)
                              /\ waiting' = IF waiting[a] = m.id THEN [waiting EXCEPT ![a] = 0] ELSE waiting
                              /\ lost' = IF m.size > p.size THEN lost \cup {"truncated"} ELSE lost
                              /\ job' = IF b = 0 THEN job ELSE [job EXCEPT ![b] = m.tile]
           /\ UNCHANGED <<nid, store>>
Done == Finished(s, N, Live) /\ waiting = [a \in 0..N-1 |-> 0] /\ UNCHANGED vars
Next == Produce \/ (\E c \in 1..N-1 : Answer(c)) \/ (\E b \in 0..N-1 : Look(b) \/ Take(b)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* Nothing is truncated and retained tiles are where they are needed.
Intact == lost = {}
\* The run can always go on until everybody has finished...
NotStuck == ENABLED Next
\* ...and does: every tile is answered exactly twice.
EveryTile == Finished(s, N, Live) => s.sent1 = Live /\ s.got1 = Live /\ s.sent2 = Live /\ s.got2 = Live
Ends == <>Finished(s, N, Live)
=============================================================================
