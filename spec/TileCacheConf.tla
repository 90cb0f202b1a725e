--------------------------- MODULE TileCacheConf ---------------------------
(* Recorded histories of tiled rasters.                                      *)
EXTENDS CaseFile, TileCache
RECURSIVE RunTiles(_, _, _, _)
RunTiles(c, i, S, bad) ==
  IF i > Len(c.ops) \/ bad # {} THEN bad ELSE
  LET op == c.ops[i]
      T == TLCEval(TileStep(S, op))
  IN RunTiles(c, i + 1, T.S, {"step " \o ToString(i) \o " " \o op.o \o ": " \o x : x \in T.faults \cup Why(TileSeen(T, op), "evictions")})
JudgeTiles(c) == RunTiles(c, 1, [a \in 1..c.na |-> Closed], {})
=============================================================================
