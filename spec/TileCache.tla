----------------------------- MODULE TileCache -----------------------------
(* A raster kept in tiles, of which a bounded number is in RAM.  To its user *)
(* it is a plain array per tile; what shows of the cache is how often it     *)
(* evicted and which tiles it wrote to disk when it did.                     *)
(* Tiles are numbered 1..W*H in row-major order.                             *)
EXTENDS Integers, Sequences, TLC

Closed == [open |-> FALSE]
FlipH(z, w, h) == [i \in 1..(w * h) |-> z[((i - 1) \div w) * w + (w - 1 - ((i - 1) % w)) + 1]]
FlipV(z, w, h) == [i \in 1..(w * h) |-> z[(h - 1 - ((i - 1) \div w)) * w + ((i - 1) % w) + 1]]
\* which way round a tile is turned when it is loaded (and turned back when it is saved)
TurnH(A, t) == (A.geo[t] # <<>> /\ A.geo[t][2] < 0) # A.flipH
TurnV(A, t) == (A.geo[t] # <<>> /\ A.geo[t][6] > 0) # A.flipV
Turned(A, t, z) ==
  LET a == IF TurnH(A, t) THEN FlipH(z, A.tw, A.th) ELSE z
  IN IF TurnV(A, t) THEN FlipV(a, A.tw, A.th) ELSE a

\* -- the cache: [A |-> array after, wrote |-> tiles written] after tile t was needed
Touch(A, t) ==
  LET front(s) == <<t>> \o SelectSeq(s, LAMBDA x : x # t)
  IN IF A.null[t] = 1 THEN [A |-> A, wrote |-> {}]
     ELSE IF \E i \in 1..Len(A.lru) : A.lru[i] = t THEN [A |-> [A EXCEPT !.lru = front(@)], wrote |-> {}]
     ELSE IF Len(A.lru) < A.cap THEN [A |-> [A EXCEPT !.lru = front(@)], wrote |-> {}]
     ELSE LET out == A.lru[Len(A.lru)]
          IN [A |-> [A EXCEPT !.lru = front(SubSeq(@, 1, Len(@) - 1)), !.ev = @ + 1], wrote |-> IF A.ro THEN {} ELSE {out}]
RECURSIVE TouchAll(_, _, _, _)
TouchAll(A, ts, i, wrote) ==
  IF i > Len(ts) THEN [A |-> A, wrote |-> wrote]
  ELSE LET x == Touch(A, ts[i]) IN TouchAll(x.A, ts, i + 1, wrote \cup x.wrote)
AllTiles(A) == [t \in 1..(A.W * A.H) |-> t]

\* -- cells
TileAt(A, x, y) == (y \div A.th) * A.W + (x \div A.tw) + 1
CellAt(A, x, y) == (y % A.th) * A.tw + (x % A.tw) + 1
TileOf(A, q) == q[2] * A.W + q[1] + 1
Value(A, t, i) == A.val[t][i]
ByCell(A, f(_, _)) == [k \in 1..(A.W * A.tw * A.H * A.th) |-> f((k - 1) % (A.W * A.tw), (k - 1) \div (A.W * A.tw))]

Opened(op) ==
  LET n == op.W * op.H
      A == [open |-> TRUE, ro |-> op.ro, W |-> op.W, H |-> op.H, tw |-> op.tw, th |-> op.th, null |-> op.null, geo |-> op.geo,
            flipH |-> op.flipH, flipV |-> op.flipV, cap |-> op.cap, def |-> op.def, nd |-> op.nd, val |-> op.z,
            lru |-> <<>>, ev |-> 0]
  IN [A EXCEPT !.val = [t \in 1..n |-> IF op.null[t] = 1 THEN <<>> ELSE Turned(A, t, op.z[t])]]
Derived(B, op) ==
  [B EXCEPT !.ro = FALSE, !.cap = op.cap, !.def = op.def, !.nd = [t \in 1..Len(B.nd) |-> op.def], !.lru = <<>>, !.ev = 0,
            !.val = [t \in 1..Len(B.val) |-> IF B.null[t] = 1 THEN <<>> ELSE [i \in 1..(B.tw * B.th) |-> 0]]]

\* -- one operation on the arrays S: [S, wrote, faults]
TileStep(S, op) ==
  LET A == S[op.a]
      p == op.p
      W(b, s) == IF b THEN {} ELSE {s}
      Ret(x, f) == [S |-> [S EXCEPT ![op.a] = x.A], wrote |-> x.wrote, faults |-> f]
      Same(f) == Ret([A |-> A, wrote |-> {}], f)
      \* a read of a null tile gives some NoData value
      Read(t, i) == W(Len(op.res) = 1 /\ (IF A.null[t] = 1 THEN op.res[1] \in {A.def} \cup {A.nd[k] : k \in 1..Len(A.nd)}
                                           ELSE op.res[1] = Value(A, t, i)), "value read")
      Test(t, i) == W(op.res = <<IF A.null[t] = 1 \/ Value(A, t, i) = A.nd[t] THEN 1 ELSE 0>>, "NoData test")
      Write(t, i, v) == LET x == Touch(A, t) IN
                        Ret(IF A.null[t] = 1 THEN x ELSE [x EXCEPT !.A.val[t][i] = v], {})
      t2 == TileAt(A, p[1], p[2])
      i2 == CellAt(A, p[1], p[2])
      t4 == TileOf(A, p)
      i4 == p[4] * A.tw + p[3] + 1
      Live == {t \in 1..(A.W * A.H) : A.null[t] = 0}
  IN CASE op.o = "open" -> [S |-> [S EXCEPT ![op.a] = Opened(op)], wrote |-> {}, faults |->
             LET live == {t \in 1..(op.W * op.H) : op.null[t] = 0} IN
             W(op.res = <<op.W * op.tw, op.H * op.th, op.W, op.H, op.tw, op.th, op.W * op.H - Len(SelectSeq(op.null, LAMBDA x : x = 1)),
                          IF op.ro THEN 1 ELSE 0>> \o op.null \o (IF op.ro THEN <<op.tw * op.th, 1>> ELSE <<>>), "shape")]
       [] op.o = "derive" -> LET B == Derived(S[op.b], op) IN
             [S |-> [S EXCEPT ![op.a] = B], wrote |-> {}, faults |->
              W(op.res = <<B.W * B.tw, B.H * B.th, B.W, B.H, B.tw, B.th, B.W * B.H - Len(SelectSeq(B.null, LAMBDA x : x = 1)), 0>> \o B.null, "shape")]
       [] op.o = "read2" -> Ret(Touch(A, t2), Read(t2, i2))
       [] op.o = "read4" -> Ret(Touch(A, t4), Read(t4, i4))
       [] op.o = "isnd2" -> Ret(Touch(A, t2), Test(t2, i2))
       [] op.o = "isnd4" -> Ret(Touch(A, t4), Test(t4, i4))
       [] op.o = "write2" -> Write(t2, i2, p[3])
       [] op.o = "write4" -> Write(t4, i4, p[5])
       [] op.o = "touch" -> Ret(Touch(A, TileOf(A, p)), {})
       [] op.o = "setall" -> Ret([A |-> [A EXCEPT !.val = [t \in 1..Len(@) |-> IF A.null[t] = 1 THEN <<>> ELSE [i \in 1..(A.tw * A.th) |-> p[1]]]], wrote |-> {}], {})
       [] op.o = "setnd" -> Ret([A |-> [A EXCEPT !.nd = [t \in 1..Len(@) |-> IF A.null[t] = 1 THEN @[t] ELSE p[1]]], wrote |-> {}], {})
       [] op.o = "all" -> \* every cell in row-major order
             Ret(TouchAll(A, ByCell(A, LAMBDA x, y : TileAt(A, x, y)), 1, {}),
                 W(Len(op.res) = A.W * A.tw * A.H * A.th /\ \A k \in 1..Len(op.res) :
                     LET x == (k - 1) % (A.W * A.tw)
                         y == (k - 1) \div (A.W * A.tw)
                         t == TileAt(A, x, y)
                     IN A.null[t] = 1 \/ op.res[k] = Value(A, t, CellAt(A, x, y)), "value read"))
       [] op.o = "save" -> Ret(TouchAll(A, AllTiles(A), 1, {}),
             W(Len(op.tiles) = A.W * A.H /\ \A t \in 1..(A.W * A.H) :
                 LET f == op.tiles[t] IN
                 IF A.null[t] = 1 THEN f.w = 0
                 ELSE f.w = A.tw /\ f.h = A.th /\ f.z = Turned(A, t, A.val[t]) /\ f.nd = A.nd[t] /\ (A.geo[t] # <<>> => f.geo = A.geo[t]), "tiles saved"))
       [] op.o = "unify" ->
             LET bad == A.null[1] = 1 \/ A.geo[1] = <<>> \/ \E s, t \in Live : A.nd[s] # A.nd[t]
             IN IF bad THEN Same(W(op.err, "saved what cannot be one raster"))
                ELSE Ret(TouchAll(A, AllTiles(A), 1, {}),
                         W(~op.err, "refused") \cup
                         (IF op.err THEN {} ELSE
                          LET f == op.tiles[1] IN
                          W(f.w = A.W * A.tw /\ f.h = A.H * A.th /\ f.nd = A.nd[1] /\ f.geo = A.geo[1]
                            /\ f.z = ByCell(A, LAMBDA x, y : LET t == TileAt(A, x, y) IN IF A.null[t] = 1 THEN A.nd[1] ELSE Value(A, t, CellAt(A, x, y))), "raster saved")))
       [] op.o = "where" -> \* where a cell is
             LET w == A.W * A.tw
                 h == A.H * A.th
                 B(b) == IF b THEN 1 ELSE 0
                 x == p[1]
                 y == p[2]
                 in == x \in 0..(w - 1) /\ y \in 0..(h - 1)
             IN Same(W(op.res = <<B(in), B(x = 0 \/ y = 0 \/ x = w - 1 \/ y = h - 1), B(x \in 1..(w - 2) /\ y \in 1..(h - 2))>>
                        \o (IF in THEN <<x \div A.tw, y \div A.th, x % A.tw, y % A.th>> ELSE <<>>), "where"))

\* what is seen of every array after an operation: evictions so far, tiles written by it
TileSeen(T, op) ==
  \A a \in 1..Len(op.S) : T.S[a].open =>
     /\ op.S[a].ev = T.S[a].ev
     /\ {op.S[a].wrote[i] : i \in 1..Len(op.S[a].wrote)} = (IF a = op.a THEN T.wrote ELSE {})
=============================================================================
