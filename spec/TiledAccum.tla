----------------------------- MODULE TiledAccum -----------------------------
(* Accumulation by tiles, as parallel_d8_accum divides the work: every tile  *)
(* accumulates on its own and tells the producer what happens at its         *)
(* perimeter; the producer follows the flow from tile to tile, in any order   *)
(* in which nothing is passed on before it is complete; every tile adds what  *)
(* enters it along the way it takes.  Checked: the outcome is accumulation    *)
(* over the whole raster, for every raster of directions, tiling, set of      *)
(* missing tiles and order.                                                   *)
EXTENDS Raster, Sample
CONSTANTS W, H, TW, TH, Some, NullSets, Twice, Diag
GW == (W + TW - 1) \div TW
GH == (H + TH - 1) \div TH
C == Cells(W, H)
TileOf(x) == ((YOf(W, x) \div TH) * GW) + (XOf(W, x) \div TW) + 1
N == Nb8(W, H)
NODATA == 9
VARIABLES d,      \* directions; 9 = NoData
          null,   \* missing tiles
          own,    \* what a tile accumulates by itself
          acc,    \* at the perimeter: what has come together there
          into,   \* of this, what came from other tiles
          left    \* perimeter cells whose flow has not been passed on
vars == <<d, null, own, acc, into, left>>

InTile(x, y) == y # 0 /\ TileOf(x) = TileOf(y)
Real(x) == TileOf(x) \notin null /\ d[x] # NODATA
Next8(x) == IF d[x] \in 1..8 THEN Step8(W, H, x, d[x]) ELSE 0
RECURSIVE Acc(_, _)
Acc(Ups, x) == 1 + SumOver([u \in Ups[x] |-> Acc(Ups, u)], Ups[x])
Whole == LET U == [x \in C |-> {u \in N[x] : Real(u) /\ Next8(u) = x}] IN [x \in {x \in C : Real(x)} |-> Acc(U, x)]
ByTile == LET U == [x \in C |-> {u \in N[x] : Real(u) /\ Next8(u) = x /\ InTile(x, u)}] IN [x \in {x \in C : Real(x)} |-> Acc(U, x)]
\* cells with a neighbour in another tile that is there
Perimeter == {x \in C : Real(x) /\ \E y \in N[x] : ~InTile(x, y)}
\* Where flow that enters at x leaves the tile (0: nowhere)
RECURSIVE Leaves(_)
Leaves(x) == LET y == Next8(x) IN
             IF ~Real(x) \/ d[x] = 0 \/ y = 0 THEN 0
             ELSE IF ~InTile(x, y) THEN x ELSE Leaves(y)
\* Missing tiles' corners (see Diag): flow passing between two of them is lost.
Blocked(x, y) == Diag /\ XOf(W, x) # XOf(W, y) /\ YOf(W, x) # YOf(W, y)
                      /\ TileOf(CellAt(W, XOf(W, x), YOf(W, y))) \in null /\ TileOf(CellAt(W, XOf(W, y), YOf(W, x))) \in null
\* Where the producer passes the flow of a perimeter cell on to.
Down(x) ==
  LET q == Leaves(x) IN
  IF q = 0 THEN 0
  ELSE IF q # x THEN q
  ELSE LET y == Next8(x) IN IF TileOf(y) \in null \/ ~Real(y) \/ Blocked(x, y) THEN 0 ELSE y
RECURSIVE Way(_)
Way(x) == IF ~Real(x) THEN {} ELSE {x} \cup (LET y == Next8(x) IN IF InTile(x, y) THEN Way(y) ELSE {})
Acyclic(f) == \* every cell comes to an end
  LET To == [x \in C |-> IF f[x] \in 1..8 THEN Step8(W, H, x, f[x]) ELSE 0]
  IN Reach({x \in C : To[x] = 0}, [x \in C |-> {u \in N[x] : To[u] = x}]) = C

All == [C -> 0..NODATA]
Init == /\ d \in {f \in (IF Some = 0 THEN All ELSE Samples(Some, W * H, NODATA)) : Acyclic(f)}
        /\ null \in {S \in SUBSET (1..GW*GH) : Cardinality(S) <= NullSets}
        /\ own = ByTile
        /\ left = Perimeter
        \* flow that entered and leaves elsewhere is part of what leaves there
        /\ acc = [x \in Perimeter |-> IF Leaves(x) = x \/ Twice THEN own[x] ELSE 0]
        /\ into = [x \in Perimeter |-> 0]
PassOn(x) ==
  /\ \A u \in left : u # x => Down(u) # x
  /\ left' = left \ {x}
  /\ LET y == Down(x) IN
     IF y = 0 THEN UNCHANGED <<acc, into>>
     ELSE /\ acc' = [acc EXCEPT ![y] = @ + acc[x]]
          /\ into' = [into EXCEPT ![y] = IF InTile(x, y) THEN @ ELSE @ + acc[x]]
  /\ UNCHANGED <<d, null, own>>
\* one order, or (Some = 0 only) every order
Next == \E x \in left : PassOn(x) /\ (Some # 0 => \A y \in left : y < x => \E u \in left : u # y /\ Down(u) = y)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == [x \in DOMAIN own |-> own[x] + SumOver(into, {p \in Perimeter : InTile(p, x) /\ x \in Way(p)})]
Right == left = {} => Result = Whole
NeverStuck == left # {} => ENABLED Next
=============================================================================
