----------------------------- MODULE TiledConf ------------------------------
(* Recorded runs of the tiled programs against the specification: the tiles  *)
(* put together are what the whole raster would give, whatever the tiling,   *)
(* the number of ranks and the order in which messages arrive; and every     *)
(* message fits the protocol of TileProtocol.                                *)
EXTENDS CaseFile, Raster
P == INSTANCE TileProtocol
F == INSTANCE Fill

(* ---- the mosaic ---------------------------------------------------------- *)
TileOf(c, x) == ((YOf(c.W, x) \div c.th) * c.gw) + (XOf(c.W, x) \div c.tw) + 1
Whole(c) == IF \E k \in 1..Len(c.tiles) : c.tiles[k].null THEN {x \in Cells(c.W, c.H) : ~c.tiles[TileOf(c, x)].null} ELSE Cells(c.W, c.H)
\* Where the tile's file holds a cell of the mosaic.
AtTile(c, t, x) ==
  LET i == XOf(c.W, x) - t.x
      j == YOf(c.W, x) - t.y
  IN CellAt(t.w, IF c.fh THEN t.w - 1 - i ELSE i, IF c.fv THEN t.h - 1 - j ELSE j)
Input(c) == [x \in Whole(c) |-> LET t == c.tiles[TileOf(c, x)] IN t.in[AtTile(c, t, x)]]
Output(c) == [x \in Whole(c) |-> LET t == c.tiles[TileOf(c, x)] IN t.out[AtTile(c, t, x)]]
Live(c) == {k \in 1..Len(c.tiles) : ~c.tiles[k].null}

(* ---- what both programs owe ---------------------------------------------- *)
Shape(c) ==
  \A k \in Live(c) : LET t == c.tiles[k] IN t.ok /\ t.ow = t.w /\ t.oh = t.h /\ Len(t.out) = t.w * t.h
\* In <one> mode tiles lie inside the input; in <many> mode each keeps its place.
Placed(c) ==
  \A k \in Live(c) : LET t == c.tiles[k]
                         x == IF c.mode = "one" THEN t.x ELSE 0
                         y == IF c.mode = "one" THEN t.y ELSE 0
    IN t.ogt = <<c.gt[1] + x * c.gt[2] + y * c.gt[3], c.gt[2], c.gt[3], c.gt[4] + x * c.gt[5] + y * c.gt[6], c.gt[5], c.gt[6]>>
Listed(c) == c.layout = [j \in 1..c.gh |-> [i \in 1..c.gw |-> c.tiles[(j - 1) * c.gw + i].name]]
Talk(c) ==
  LET live == Cardinality(Live(c))
      f == P!Follow(P!Start(c.n), live, c.run.log, 1)
  IN Why(f.bad = 0, "a message against the protocol")
     \cup Why(f.bad # 0 \/ P!Finished(f.s, c.n, live), "unfinished")
     \cup Why(c.run.undelivered = 0, "undelivered messages")
Common(c) ==
  IF c.run.failure # "" THEN {"the run did not end well"}
  ELSE Why(Len(c.run.rcs) = c.n /\ \A k \in 1..Len(c.run.rcs) : c.run.rcs[k] = 0, "exit status")
       \cup Talk(c) \cup Why(Listed(c), "layout of the results")
       \cup (IF Shape(c) THEN Why(Placed(c), "place of a tile") ELSE {"shape of a tile"})

(* ---- accumulation --------------------------------------------------------- *)
JudgeAccum(c) ==
  LET K == Common(c) IN
  IF ~Shape(c) \/ c.run.failure # "" THEN K ELSE
  LET V == TLCEval(Whole(c))
      d == TLCEval(Input(c))
      a == TLCEval(Output(c))
      ND == TLCEval({x \in V : d[x] = 255})
      To == TLCEval([x \in V |-> IF d[x] \in 1..8 THEN Step8(c.W, c.H, x, d[x]) ELSE 0])
      From(x) == {u \in {Step8(c.W, c.H, x, n) : n \in 1..8} \cap V : To[u] = x}
  IN K \cup Why(\A x \in ND : a[x] = -1, "NoData not marked")
       \cup Why(\A k \in Live(c) : c.tiles[k].ond = -1, "NoData value")
       \cup Why(\A x \in V \ ND : a[x] = 1 + SumOver(a, From(x)), "does not add up")

(* ---- filling --------------------------------------------------------------- *)
Fills(z, W, E, N) == F!FillLocal(z, W, E, N) /\ F!FillExplained(z, W, E, N)
\* Water leaves at the raster's edge and where a tile has a null tile beside it.
Outlets(c, V, Dirs) ==
  {x \in V : \E n \in Dirs : LET y == Step8(c.W, c.H, x, n) IN y = 0 \/ y \notin V}
JudgeFlood(c) ==
  LET K == Common(c) IN
  IF ~Shape(c) \/ c.run.failure # "" THEN K ELSE
  LET V == TLCEval(Whole(c))
      z == TLCEval(Input(c))
      W == TLCEval(Output(c))
      N == TLCEval([x \in V |-> {Step8(c.W, c.H, x, n) : n \in 1..8} \cap V])
  IN K \cup Why(\A k \in Live(c) : c.tiles[k].ond = c.nd, "NoData value")
       \cup Why(\A x \in V : W[x] >= z[x], "lowered")
       \cup Why(Fills(z, W, TLCEval(Outlets(c, V, {1, 3, 5, 7})), N) \/ Fills(z, W, TLCEval(Outlets(c, V, 1..8)), N), "not the filled surface")
=============================================================================
