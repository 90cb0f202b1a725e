------------------------------- MODULE AppModel -------------------------------
(* Programs working on files, step by step.  Files are pieces of one ground    *)
(* truth, in any storage order; programs split, enlarge, turn and merge them.  *)
(* Whatever is done, a cell that holds data holds what the ground has where    *)
(* the file's geotransform says the cell lies; a file once written stays as it *)
(* is; and its history is that of its source and the programs since.          *)
EXTENDS AppFiles
CONSTANTS MaxFiles, Size, GrowTo, MergeGeo, Forgets
VARIABLES files
ND == 0
\* ground of Size x Size cells, all different; north is up
Ground(px, py) == LET x == (px - 1) \div 2 IN LET y == (-1 - py) \div 2 IN
                  IF px % 2 = 1 /\ x \in 0..(Size - 1) /\ y \in 0..(Size - 1) THEN y * Size + x + 1 ELSE ND
Stored(x0, y0, w, h, fh, fv) ==
  [w |-> w, h |-> h, g |-> <<IF fh THEN x0 + w ELSE x0, IF fh THEN -1 ELSE 1, IF fv THEN -(y0 + h) ELSE -y0, IF fv THEN 1 ELSE -1>>,
   v |-> TurnedAll([c \in Cells(w, h) |-> (y0 + YOf(w, c)) * Size + x0 + XOf(w, c) + 1], w, h, fh, fv), hist |-> <<>>, from |-> 0]
Init == files = <<>>
Survey == \E x0, y0 \in 0..(Size - 1), w, h \in 1..2, fh, fv \in BOOLEAN :
            x0 + w <= Size /\ y0 + h <= Size /\ files' = Append(files, Stored(x0, y0, w, h, fh, fv))
Log(f, p) == IF Forgets THEN <<p>> ELSE Append(f.hist, p)
Expand == \E i \in 1..Len(files), dx, dy \in 0..1 :
  LET f == files[i]
      W == f.w + dx
      H == f.h + dy
      v == IF GrowTo = "end" THEN Grown(f.v, f.w, f.h, ND, W, H)
           ELSE TurnedAll(Grown(TurnedAll(f.v, f.w, f.h, TRUE, TRUE), f.w, f.h, ND, W, H), W, H, TRUE, TRUE)
  IN W <= 3 /\ H <= 3 /\ files' = Append(files, [f EXCEPT !.w = W, !.h = H, !.v = v, !.hist = Log(f, "expand"), !.from = i])
Join == \E i, j \in 1..Len(files) :
  LET a == files[i]
      b == files[j]
      A == NorthWest(a.g, a.w, a.h)
      B == NorthWest(b.g, b.w, b.h)
      at(x, y) == IF x < a.w THEN Turned(a.v, a.w, a.h, a.g[2] < 0, a.g[4] > 0, x, y) ELSE Turned(b.v, b.w, b.h, b.g[2] < 0, b.g[4] > 0, x - a.w, y)
  IN /\ a.w = b.w /\ a.h = b.h /\ A[3] = B[3] /\ B[1] = A[1] + a.w /\ a.w <= 2
     /\ files' = Append(files, [w |-> 2 * a.w, h |-> a.h, v |-> [c \in Cells(2 * a.w, a.h) |-> at(XOf(2 * a.w, c), YOf(2 * a.w, c))],
                                g |-> IF MergeGeo = "turned" THEN A ELSE a.g, hist |-> <<"merge">>, from |-> 0])
Next == Len(files) < MaxFiles /\ (Survey \/ Expand \/ Join)
Spec == Init /\ [][Next]_files

Truthful == \A i \in 1..Len(files) :
  LET f == files[i] IN \A c \in Cells(f.w, f.h) :
    f.v[c] # ND => LET p == Place(f.g, XOf(f.w, c), YOf(f.w, c)) IN f.v[c] = Ground(p[1], p[2])
Traced == \A i \in 1..Len(files) : files[i].from # 0 =>
  LET s == files[files[i].from].hist
      h == files[i].hist
  IN Len(h) = Len(s) + 1 /\ SubSeq(h, 1, Len(s)) = s
Kept == [][\A i \in 1..Len(files) : files'[i] = files[i]]_files
=============================================================================
