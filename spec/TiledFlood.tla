----------------------------- MODULE TiledFlood ------------------------------
(* Filling by tiles, as parallel_priority_flood divides the work: every tile  *)
(* is filled up to its own perimeter and cut into watersheds; the producer    *)
(* joins the watersheds of all tiles by the lowest place where water passes    *)
(* from one to another, floods this graph from the outside (watershed 0 here, *)
(* 1 in the program), and every tile raises its cells to the level of their    *)
(* watershed.  Checked: the outcome is the whole raster filled, for every       *)
(* terrain, tiling, set of missing tiles, admissible cut into watersheds and    *)
(* order among equals.                                                         *)
EXTENDS Fill, Sample
CONSTANTS W, H, TW, TH, ZMAX, Some, NullSets, NoCorner, Coarse
GW == (W + TW - 1) \div TW
GH == (H + TH - 1) \div TH
C == Cells(W, H)
TileOf(x) == ((YOf(W, x) \div TH) * GW) + (XOf(W, x) \div TW) + 1
N8 == Nb8(W, H)
VARIABLES z, null, fill, shed, open, level
vars == <<z, null, fill, shed, open, level>>

Real(nl) == {x \in C : TileOf(x) \notin nl}
SameTile(x, y) == TileOf(x) = TileOf(y)
InN == TLCEval([x \in C |-> {n \in N8[x] : SameTile(n, x)}])
Rim == TLCEval({x \in C : \E n \in 1..8 : LET y == Step8(W, H, x, n) IN y = 0 \/ ~SameTile(x, y)})
OutletsOf(nl) == {x \in Real(nl) : \E n \in {1, 3, 5, 7} : LET y == Step8(W, H, x, n) IN y = 0 \/ TileOf(y) \in nl}
\* z restricted to one side of the world is a filling problem of its own
FillIn(f, S, E, Nbr) == FillTo([x \in S |-> f[x]], E, [x \in S |-> Nbr[x] \cap S])

\* Admissible cuts: each cell belongs to the watershed of a rim cell of its tile
\* which it reaches without rising above its level (the rim cell to itself, so
\* that watersheds have a root).
Roots(f, F, x) ==
  LET K == Reach({x}, [a \in C |-> {b \in InN[a] : f[b] <= F[x]}])
  IN {r \in K \cap Rim : F[r] <= F[x]}
\* Each rim cell for itself, or joined with the first or last it reaches.
CutsOf(f, F, S) ==
  LET one == [x \in S |-> IF x \in Rim THEN x ELSE SetMin(Roots(f, F, x))]
      \* merged: rim cells too join a watershed they can reach
      two == [x \in S |-> SetMin(Roots(f, F, x))]
      three == [x \in S |-> SetMax(Roots(f, F, x))]
  IN {one, [x \in S |-> two[two[x]]], [x \in S |-> three[three[x]]]}

Init ==
  /\ z \in (IF Some = 0 THEN [C -> 0..ZMAX] ELSE Samples(Some, W * H, ZMAX))
  /\ null \in {S \in SUBSET (1..GW*GH) : Cardinality(S) <= NullSets}
  /\ fill = FillIn(z, Real(null), Rim \cap Real(null), InN)
  /\ shed \in IF Coarse THEN {[x \in Real(null) |-> SetMin({y \in Rim : SameTile(x, y)})]} ELSE CutsOf(z, fill, Real(null))
  /\ level = <<>>
  /\ open = [s \in {shed[x] : x \in Real(null)} |->
              LET o == {fill[x] : x \in {x \in OutletsOf(null) : shed[x] = s}} IN IF o = {} THEN BIG ELSE SetMin(o)]
\* the lowest pass between two watersheds
Corner(x, y) == XOf(W, x) # XOf(W, y) /\ YOf(W, x) # YOf(W, y) /\ XOf(W, x) \div TW # XOf(W, y) \div TW /\ YOf(W, x) \div TH # YOf(W, y) \div TH
Passes(s, t) == {Max2(fill[x], fill[y]) : <<x, y>> \in {<<x, y>> \in {x \in DOMAIN shed : shed[x] = s} \X {y \in DOMAIN shed : shed[y] = t} :
                     y \in N8[x] /\ ~(NoCorner /\ Corner(x, y))}}
\* the lowest watershed not yet settled is settled
Settle(s) ==
  /\ s \notin DOMAIN level /\ open[s] < BIG
  /\ \A t \in DOMAIN open : t \in DOMAIN level \/ open[t] >= open[s]
  /\ level' = level @@ (s :> open[s])
  /\ open' = TLCEval([t \in DOMAIN open |-> IF t \in DOMAIN level \/ t = s \/ Passes(s, t) = {} THEN open[t]
                                    ELSE Min2(open[t], Max2(open[s], SetMin(Passes(s, t))))])
  /\ UNCHANGED <<z, null, fill, shed>>
Next == \E s \in DOMAIN open : Settle(s) /\ (Some # 0 => \A t \in DOMAIN open : t \in DOMAIN level \/ open[t] > open[s] \/ t >= s)
Spec == Init /\ [][Next]_vars
Done == DOMAIN level = DOMAIN open
Result == [x \in DOMAIN fill |-> Max2(fill[x], level[shed[x]])]
Right == Done => Result = FillIn(z, Real(null), OutletsOf(null), N8)
NeverStuck == Done \/ ENABLED Next
=============================================================================
