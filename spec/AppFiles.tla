------------------------------- MODULE AppFiles -------------------------------
(* Raster files as the programs handle them: values in reading order, and a   *)
(* geotransform saying where on the ground each cell lies.  Rows may be stored *)
(* from the north or the south, columns from the west or the east.            *)
EXTENDS Raster
\* value at (x, y) of the raster turned around
Turned(v, w, h, fh, fv, x, y) == v[CellAt(w, IF fh THEN w - 1 - x ELSE x, IF fv THEN h - 1 - y ELSE y)]
TurnedAll(v, w, h, fh, fv) == [x \in Cells(w, h) |-> Turned(v, w, h, fh, fv, XOf(w, x), YOf(w, x))]
\* a raster made larger to the right and below
Grown(v, w, h, nd, W, H) == [c \in Cells(W, H) |-> IF XOf(W, c) < w /\ YOf(W, c) < h THEN v[CellAt(w, XOf(W, c), YOf(W, c))] ELSE nd]
\* geotransform g = <<x, step to the right, y, step down>>: twice where the middle of a cell lies
Place(g, x, y) == <<2 * g[1] + g[2] * (2 * x + 1), 2 * g[3] + g[4] * (2 * y + 1)>>
\* the same raster with its first row in the north and its first column in the west
NorthWest(g, w, h) == <<IF g[2] < 0 THEN g[1] + g[2] * w ELSE g[1], Abs(g[2]), IF g[4] > 0 THEN g[3] + g[4] * h ELSE g[3], -Abs(g[4])>>
=============================================================================
