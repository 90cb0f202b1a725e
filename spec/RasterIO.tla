------------------------------ MODULE RasterIO -----------------------------
(* Rasters and the files they are kept in.                                   *)
(*   A raster's data is in RAM ("data"), out of it ("out") and to be read    *)
(*   back from where it came from (a native file, or a window of a GDAL      *)
(*   file), or it has none ("none").                                         *)
(*   A file is missing ("no"), or "native" (cells and labels, no metadata),  *)
(*   or "gdal" (everything, among it the processing history).                *)
(* Cells and NoData values are indices into a palette of element values, so  *)
(* "the same cell" means the same value; geotransforms are six integers or   *)
(* none; a history is the sequence of labels of the operations recorded.     *)
EXTENDS Integers, Sequences, TLC

NoRaster(def) == [st |-> "none", w |-> 0, h |-> 0, z |-> <<>>, nd |-> def, geo |-> <<>>, proj |-> 0, hist |-> <<>>, note |-> 0,
                  fn |-> 0, src |-> "none", x |-> 0, y |-> 0]
NoFile == [kind |-> "no", w |-> 0, h |-> 0, z |-> <<>>, nd |-> 0, geo |-> <<>>, proj |-> 0, hist |-> <<>>, note |-> 0]
IOStart(nr, nf, def) == [R |-> [a \in 1..nr |-> NoRaster(def)], F |-> [f \in 1..nf |-> NoFile]]

\* what GDAL files without a geotransform are given when they are read
Arbitrary == <<1000, 1, 0, 1000, 0, -1>>
Shift(geo, x, y) == IF geo = <<>> THEN <<>> ELSE [geo EXCEPT ![1] = @ + x * geo[2], ![4] = @ + y * geo[6]]
\* cells of the w x h window at (x,y) of a raster W cells wide
Window(z, W, x, y, w, h) == [i \in 1..(w * h) |-> z[(y + (i - 1) \div w) * W + x + ((i - 1) % w) + 1]]
\* cells with a frame of px columns and py rows of v around them, and without
Framed(z, w, h, px, py, v) ==
  LET W == w + 2 * px
      IN [i \in 1..(W * (h + 2 * py)) |->
           LET x == ((i - 1) % W) - px
               y == ((i - 1) \div W) - py
           IN IF x \in 0..(w - 1) /\ y \in 0..(h - 1) THEN z[y * w + x + 1] ELSE v]

\* how much of a side of length n, from o on, a request for k cells gets
Part(n, o, k) == LET m == IF o + k >= n THEN n - o ELSE k IN IF m = 0 THEN n ELSE m

\* -- one operation: [S |-> state after, err |-> refused, ans |-> answer]
IOStep(S, op, zero, def) ==
  LET a == op.a
      f == op.f
      p == op.p
      r == S.R[a]
      F == IF f = 0 THEN NoFile ELSE S.F[f]
      PutR(q) == [S EXCEPT !.R[a] = q]
      PutRF(q, g) == [S EXCEPT !.R[a] = q, !.F[f] = g]
      Ok(T) == [S |-> T, err |-> FALSE, ans |-> <<>>]
      No == [S |-> S, err |-> TRUE, ans |-> <<>>]
      Image(q) == [kind |-> "native", w |-> q.w, h |-> q.h, z |-> q.z, nd |-> q.nd,
                   geo |-> q.geo, proj |-> q.proj, hist |-> <<>>, note |-> 0]
      Georef(g) == IF g.geo = <<>> THEN Arbitrary ELSE g.geo
  IN CASE op.o = "new" -> Ok(PutR([NoRaster(def) EXCEPT !.st = "data", !.w = p[1], !.h = p[2], !.z = op.z, !.nd = p[3],
                                          !.geo = op.geo, !.proj = p[4], !.note = p[5]]))
       [] op.o = "set" -> Ok(PutR([r EXCEPT !.z[p[2] * r.w + p[1] + 1] = p[3]]))
       [] op.o = "nodata" -> Ok(PutR([r EXCEPT !.nd = p[1]]))
       [] op.o = "copy" -> Ok(PutR(S.R[op.b]))
       [] op.o = "template" -> LET q == S.R[op.b] IN
             Ok(PutR([NoRaster(def) EXCEPT !.st = "data", !.w = q.w, !.h = q.h, !.z = [i \in 1..(q.w * q.h) |-> p[1]],
                                          !.geo = q.geo, !.proj = q.proj, !.hist = q.hist, !.note = q.note]))
       \* the GDAL formats: the method of the class notes the operation in the raster too
       [] op.o = "gsave" -> LET q == [r EXCEPT !.hist = Append(@, p[1])] IN
             Ok(PutRF(q, [Image(q) EXCEPT !.kind = "gdal", !.geo = Shift(q.geo, p[2], p[3]), !.hist = q.hist, !.note = q.note]))
       [] op.o = "xsave" -> \* without a frame of p[4] columns and p[5] rows
             LET w == r.w - 2 * p[4]
                 h == r.h - 2 * p[5]
             IN Ok([S EXCEPT !.F[f] = [Image(r) EXCEPT !.kind = "gdal", !.w = w, !.h = h,
                       !.z = Window(r.z, r.w, p[4], p[5], w, h),
                       !.geo = Shift(r.geo, p[2], p[3]), !.hist = Append(r.hist, p[1]), !.note = r.note]])
       [] op.o = "gload" ->
             IF F.kind # "gdal" \/ (p[5] = 1 /\ (F.w - p[1] # p[3] \/ F.h - p[2] # p[4])) THEN No ELSE
             LET w == Part(F.w, p[1], p[3])
                 h == Part(F.h, p[2], p[4])
             IN Ok(PutR([NoRaster(def) EXCEPT !.st = IF p[6] = 1 THEN "data" ELSE "out", !.w = w, !.h = h,
                          !.z = Window(F.z, F.w, p[1], p[2], w, h), !.nd = F.nd, !.geo = Georef(F), !.proj = F.proj,
                          !.hist = F.hist, !.note = F.note, !.fn = f, !.src = "gdal", !.x = p[1], !.y = p[2]]))
       [] op.o = "xload" -> \* with a frame of p[5] columns and p[6] rows
             IF F.kind # "gdal" THEN No ELSE
             LET w == Part(F.w, p[1], p[3])
                 h == Part(F.h, p[2], p[4])
             IN Ok(PutR([NoRaster(def) EXCEPT !.st = "data", !.w = w + 2 * p[5], !.h = h + 2 * p[6],
                          !.z = Framed(Window(F.z, F.w, p[1], p[2], w, h), w, h, p[5], p[6], zero), !.nd = F.nd, !.geo = Georef(F),
                          !.proj = F.proj, !.hist = F.hist, !.note = F.note, !.fn = f, !.src = "gdal"]))
       \* the native format, and the cache
       [] op.o = "nsave" -> Ok(PutRF([r EXCEPT !.fn = f, !.src = "native"], Image(r)))
       [] op.o = "nload" ->
             IF F.kind # "native" THEN No ELSE
             Ok(PutR([NoRaster(def) EXCEPT !.st = IF p[1] = 1 THEN "data" ELSE "out", !.w = F.w, !.h = F.h, !.z = F.z, !.nd = F.nd,
                       !.geo = F.geo, !.proj = F.proj, !.fn = f, !.src = "native"]))
       [] op.o = "cache" -> Ok(PutR([r EXCEPT !.fn = f]))
       [] op.o = "dump" -> IF r.st # "data" THEN Ok(S) ELSE
             Ok([S EXCEPT !.R[a] = [r EXCEPT !.st = "out", !.src = "native"], !.F[r.fn] = Image(r)])
       [] op.o = "load" -> IF r.st = "data" THEN No ELSE
             IF r.src = "native"
             THEN LET g == S.F[r.fn] IN Ok(PutR([r EXCEPT !.st = "data", !.w = g.w, !.h = g.h, !.z = g.z, !.nd = g.nd, !.geo = g.geo, !.proj = g.proj]))
             ELSE LET g == S.F[r.fn] IN Ok(PutR([r EXCEPT !.st = "data", !.z = Window(g.z, g.w, r.x, r.y, r.w, r.h)]))
       [] op.o = "header" -> IF F.kind # "gdal" THEN No ELSE
             [S |-> S, err |-> FALSE, ans |-> <<F.w, F.h, F.nd, F.w, F.h, 1, 1>> \o F.geo \o F.geo]

IOLooks(r, o) ==
  /\ o.w = r.w /\ o.h = r.h /\ o.nd = r.nd /\ o.geo = r.geo /\ o.proj = r.proj /\ o.hist = r.hist /\ o.note = r.note
  /\ o.data = (r.st = "data")
  /\ o.z = (IF r.st = "data" THEN r.z ELSE <<>>)
=============================================================================
