-------------------------- MODULE TileCacheModel ---------------------------
(* How the cache works inside: tiles in RAM, tiles in files, fills and       *)
(* NoData values still to be applied, tiles that have not been made.  It     *)
(* must look like the plain array of TileCache whatever the order of         *)
(* accesses.  One cell per tile: the cells of a tile share their fate.       *)
(* Fault names a mistake, none of which the specification must survive.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tiles, Null, Vals, Cap, Depth, Fault, ReadOnly
VARIABLES plain, nd,           \* what the user should see
          ram, file, lru, created, fill, tnd, fnd,  \* how it is kept
          answer, depth
vars == <<plain, nd, ram, file, lru, created, fill, tnd, fnd, answer, depth>>
None == -5
Live == Tiles \ Null
Init == /\ file \in (IF ReadOnly THEN [Tiles -> Vals] ELSE {[t \in Tiles |-> None]})
        /\ plain = [t \in Tiles |-> IF ReadOnly THEN file[t] ELSE 0]
        /\ nd = 0 /\ tnd = [t \in Tiles |-> 0] /\ fnd = [t \in Tiles |-> 0]
        /\ ram = [t \in Tiles |-> None] /\ lru = <<>> /\ created = [t \in Tiles |-> ReadOnly] /\ fill = [t \in Tiles |-> None]
        /\ answer = <<TRUE, TRUE>> /\ depth = 0
Front(s, t) == <<t>> \o SelectSeq(s, LAMBDA x : x # t)
\* state after tile t has been made available
Load(t) ==
  LET in == ram[t] # None
      full == ~in /\ Len(lru) = Cap
      out == lru[Len(lru)]
      ram1 == IF full THEN [ram EXCEPT ![out] = None] ELSE ram
      file1 == IF full /\ ~ReadOnly /\ Fault # "nodump" THEN [file EXCEPT ![out] = ram[out]] ELSE file
      fnd1 == IF full /\ ~ReadOnly THEN [fnd EXCEPT ![out] = tnd[out]] ELSE fnd
      lru1 == IF full THEN SubSeq(lru, 1, Len(lru) - 1) ELSE lru
      got == IF in THEN ram[t] ELSE IF created[t] THEN file1[t] ELSE 0
      val == IF fill[t] # None /\ ~(Fault = "nofill" /\ in) THEN fill[t] ELSE got
  IN [ram |-> [ram1 EXCEPT ![t] = val], file |-> file1, fnd |-> fnd1, lru |-> Front(lru1, t),
      created |-> [created EXCEPT ![t] = TRUE],
      fill |-> IF Fault = "refill" THEN fill ELSE [fill EXCEPT ![t] = None],
      tnd |-> IF Fault = "filend" /\ ~in /\ created[t] THEN [tnd EXCEPT ![t] = fnd1[t]] ELSE tnd]
Put(x) == /\ file' = x.file /\ fnd' = x.fnd /\ lru' = x.lru /\ created' = x.created /\ fill' = x.fill /\ tnd' = x.tnd
Read(t) == LET x == Load(t) IN
  /\ Put(x) /\ ram' = x.ram /\ answer' = <<x.ram[t] = plain[t], (x.ram[t] = x.tnd[t]) = (plain[t] = nd)>> /\ UNCHANGED <<plain, nd>>
Write(t, v) == LET x == Load(t) IN
  /\ ~ReadOnly /\ Put(x) /\ ram' = [x.ram EXCEPT ![t] = v] /\ plain' = [plain EXCEPT ![t] = v] /\ answer' = <<TRUE, TRUE>> /\ UNCHANGED nd
SetAll(v) == /\ ~ReadOnly /\ fill' = [t \in Tiles |-> v] /\ plain' = [t \in Tiles |-> v] /\ answer' = <<TRUE, TRUE>>
             /\ UNCHANGED <<nd, ram, file, lru, created, tnd, fnd>>
SetNd(v) == /\ nd' = v /\ tnd' = [t \in Tiles |-> v] /\ answer' = <<TRUE, TRUE>>
            /\ UNCHANGED <<plain, ram, file, lru, created, fill, fnd>>
Next == /\ depth < Depth /\ depth' = depth + 1
        /\ \/ \E t \in Live : Read(t) \/ \E v \in Vals : Write(t, v)
           \/ \E v \in Vals : SetAll(v) \/ SetNd(v)
Spec == Init /\ [][Next]_vars
Transparent == answer = <<TRUE, TRUE>>
Bounded == /\ Len(lru) <= Cap /\ Cardinality({t \in Tiles : ram[t] # None}) <= Cap
           /\ {lru[i] : i \in 1..Len(lru)} = {t \in Tiles : ram[t] # None}
\* what is out of RAM is what its file, or the fill still to come, says
Kept == \A t \in Live : plain[t] = (IF fill[t] # None THEN fill[t] ELSE IF ram[t] # None THEN ram[t] ELSE IF created[t] THEN file[t] ELSE 0)
NullUntouched == \A t \in Null : ram[t] = None /\ file[t] \in Vals \cup {None}
=============================================================================
