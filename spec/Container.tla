----------------------------- MODULE Container -----------------------------
(* Raster containers as plain width-by-height grids of k values per cell.    *)
(* A state has registers R (rasters) and B, foreign memory some of them wrap.*)
(* Step(S, op, k, def) is the effect of one operation: the new state, the    *)
(* values it answers and whether it is refused.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DX == <<0, -1, -1, 0, 1, 1, 1, 0, -1>>     \* the cell itself and its neighbours 1..8
DY == <<0, 0, -1, -1, -1, 0, 1, 1, 1>>
Fill(n, v) == [i \in 1..n |-> v]
NewReg(w, h, z, nd) == [w |-> w, h |-> h, nd |-> nd, own |-> 0, st |-> "full", z |-> z, geo |-> 0, proj |-> 0, base |-> 0, meta |-> 0]
Empty(def) == [NewReg(0, 0, <<>>, def) EXCEPT !.st = "hollow"]
Start(n, B, def) == [R |-> [a \in 1..n |-> Empty(def)], B |-> B]

Cells(S, a, k) == LET r == S.R[a] IN IF r.own = 0 THEN r.z ELSE SubSeq(S.B[r.own], 1, k * r.w * r.h)
Put(S, a, z) == LET r == S.R[a] IN
  IF r.own = 0 THEN [S EXCEPT !.R[a].z = z]
  ELSE [S EXCEPT !.B[r.own] = [i \in 1..Len(@) |-> IF i <= Len(z) THEN z[i] ELSE @[i]]]

RECURSIVE FoldMin(_, _)
FoldMin(s, best) == IF s = <<>> THEN best ELSE FoldMin(Tail(s), IF s[1] < best THEN s[1] ELSE best)
RECURSIVE FoldMax(_, _)
FoldMax(s, best) == IF s = <<>> THEN best ELSE FoldMax(Tail(s), IF s[1] > best THEN s[1] ELSE best)
Count(z, P(_)) == Cardinality({i \in 1..Len(z) : P(z[i])})

Step(S, op, k, def, tmin, tmax) ==
  LET a == op.a
      b == op.b
      p == op.p
      r == S.R[a]
      q == S.R[b]
      w == r.w
      h == r.h
      z == TLCEval(IF r.st = "full" THEN Cells(S, a, k) ELSE <<>>)
      At(x, y) == z[y * w + x + 1]
      Set(reg) == [S EXCEPT !.R[a] = reg]
      Ok(T) == [S |-> T, res |-> <<>>, err |-> FALSE]
      Ans(s) == [S |-> S, res |-> s, err |-> FALSE]
      Refuse == [S |-> S, res |-> <<>>, err |-> TRUE]
      \* cell (x,y) of the result is f(x,y)
      Grid(W, H, F(_, _)) == [i \in 1..(W * H) |-> F((i - 1) % W, (i - 1) \div W)]
      Map(F(_)) == Ok(Put(S, a, [i \in 1..Len(z) |-> F(z[i])]))
      Num(t) == IF t THEN 1 ELSE 0
      In(x, y) == x >= 0 /\ y >= 0 /\ x < w /\ y < h
      Idx(x, y) == IF In(x, y) THEN y * w + x ELSE -1
      Resized(W, H, v) == IF r.own # 0 /\ W * H # w * h THEN Refuse
                          ELSE IF r.own # 0 THEN Ok(Put([S EXCEPT !.R[a].w = W, !.R[a].h = H], a, Fill(k * W * H, v)))
                          ELSE Ok(Set([r EXCEPT !.w = W, !.h = H, !.z = Fill(k * W * H, v), !.st = "full"]))
      Labels(x, y) == [x EXCEPT !.geo = y.geo, !.proj = y.proj, !.base = y.base, !.meta = y.meta]
  IN CASE op.o = "new" -> Ok(Set(NewReg(p[1], p[2], Fill(k * p[1] * p[2], p[3]), def)))
     [] op.o = "list" -> Ok(Set(NewReg(p[1], p[2], SubSeq(p, 3, Len(p)), def)))
     [] op.o = "wrap" -> Ok(Set([NewReg(p[1], p[2], <<>>, def) EXCEPT !.own = p[3]]))
     [] op.o = "copy" -> Ok(Set(IF q.st = "full" THEN [q EXCEPT !.own = 0, !.z = Cells(S, b, k)] ELSE q))
     [] op.o = "move" -> Ok([S EXCEPT !.R[a] = q, !.R[b].st = "dead", !.R[b].own = 0, !.R[b].z = <<>>])
     [] op.o = "template" -> Ok(Set(Labels(NewReg(q.w, q.h, Fill(k * q.w * q.h, p[1]), def), q)))
     [] op.o = "resize" -> Resized(p[1], p[2], p[3])
     [] op.o = "resizelike" -> LET T == Resized(q.w, q.h, p[1]) IN
          IF T.err THEN T ELSE Ok([T.S EXCEPT !.R[a].geo = q.geo, !.R[a].proj = q.proj])
     [] op.o = "expand" ->
          IF p[1] = w /\ p[2] = h THEN Ok(S)
          ELSE IF r.own # 0 \/ p[1] < w \/ p[2] < h THEN Refuse
          ELSE Ok(Set([r EXCEPT !.w = p[1], !.h = p[2], !.z = Grid(p[1], p[2], LAMBDA x, y : IF In(x, y) THEN At(x, y) ELSE p[3])]))
     [] op.o = "flipvert" -> Ok(Put(S, a, Grid(w, h, LAMBDA x, y : At(x, h - 1 - y))))
     [] op.o = "fliphorz" -> Ok(Put(S, a, Grid(w, h, LAMBDA x, y : At(w - 1 - x, y))))
     [] op.o = "transpose" -> Ok(Put([S EXCEPT !.R[a].w = h, !.R[a].h = w], a, Grid(h, w, LAMBDA x, y : At(y, x))))
     [] op.o = "nodata" -> Ok(Set([r EXCEPT !.nd = p[1]]))
     [] op.o = "setall" -> Map(LAMBDA v : p[1])
     [] op.o = "replace" -> Map(LAMBDA v : IF v = p[1] THEN p[2] ELSE v)
     [] op.o = "scale" -> Map(LAMBDA v : IF v = r.nd THEN v ELSE v * p[1])
     [] op.o = "setrow" -> Ok(Put(S, a, Grid(w, h, LAMBDA x, y : IF y = p[1] THEN p[2] ELSE At(x, y))))
     [] op.o = "setcol" -> Ok(Put(S, a, Grid(w, h, LAMBDA x, y : IF x = p[1] THEN p[2] ELSE At(x, y))))
     [] op.o = "setedges" -> Ok(Put(S, a, Grid(w, h, LAMBDA x, y : IF x \in {0, w - 1} \/ y \in {0, h - 1} THEN p[1] ELSE At(x, y))))
     [] op.o = "set" -> Ok(Put(S, a, [z EXCEPT ![p[2] * w + p[1] + 1] = p[3]]))
     [] op.o = "set3" -> Ok(Put(S, a, [z EXCEPT ![k * (p[2] * w + p[1]) + p[3] + 1] = p[4]]))
     [] op.o = "clear" -> Ok(Set([r EXCEPT !.st = "hollow", !.own = 0, !.z = <<>>]))
     [] op.o = "destroy" -> Ok(Set(Empty(def)))
     [] op.o = "poke" -> Ok([S EXCEPT !.B[p[1]][p[2] + 1] = p[3]])
     [] op.o = "label" -> Ok(Set([r EXCEPT !.geo = p[1], !.proj = p[1], !.base = p[1], !.meta = p[1]]))
     [] op.o = "templatecopy" -> Ok(Set(Labels(r, q)))
     [] op.o = "equal" -> Ans(<<Num(w = q.w /\ h = q.h /\ r.nd = q.nd /\ z = Cells(S, b, k))>>)
     [] op.o = "equal3" -> Ans(<<Num(w = q.w /\ h = q.h /\ z = Cells(S, b, k))>>)
     [] op.o = "count" -> Ans(<<Count(z, LAMBDA v : v = p[1]), Count(z, LAMBDA v : v # r.nd),
                               FoldMin(SelectSeq(z, LAMBDA v : v # r.nd), tmax), FoldMax(SelectSeq(z, LAMBDA v : v # r.nd), tmin)>>)
     [] op.o = "rows" -> LET Row(y) == [x \in 1..w |-> At(x - 1, y)]
                             Col(x) == [y \in 1..h |-> At(x, y - 1)]
                         IN Ans(Row(0) \o Row(h - 1) \o Col(0) \o Col(w - 1) \o Row(p[2]) \o Col(p[1]))
     [] op.o = "look" -> LET x == p[1]
                             y == p[2]
                             nd == At(x, y) = r.nd
                             e == x \in {0, w - 1} \/ y \in {0, h - 1}
                         IN Ans(<<y * w + x, x, y, Idx(x + p[3], y + p[4])>> \o [n \in 1..9 |-> Idx(x + DX[n], y + DY[n])]
                                \o [n \in 1..9 |-> DY[n] * w + DX[n]]
                                \o <<Num(nd), Num(nd), Num(~nd), Num(~nd), Num(e), Num(e), Num(In(x + p[3], y + p[4])),
                                     Num(x = 0 /\ y = 0), Num(x = w - 1 /\ y = 0), Num(x = 0 /\ y = h - 1), Num(x = w - 1 /\ y = h - 1),
                                     Num(y = 0), Num(y = h - 1), Num(x = 0), Num(x = w - 1), At(x, y), At(x, y), w * h>>)
     [] op.o = "look3" -> LET i == k * (p[2] * w + p[1]) + p[3]
                              nd == z[k * (p[2] * w + p[1]) + 1] = r.nd
                          IN Ans(<<z[i + 1], z[i + 1], Num(nd), Num(nd), i, w * h, 1, Num(In(p[1] - 1, p[2] - 1))>>)

(* What can be seen of a register. *)
Looks(S, a, k, o) ==
  LET r == S.R[a] IN
  IF r.st = "dead" THEN o.dead
  ELSE /\ ~o.dead /\ o.w = r.w /\ o.h = r.h /\ o.nd = r.nd /\ o.own = (r.own = 0) /\ o.empty = (r.st # "full")
       /\ o.geo = r.geo /\ o.proj = r.proj /\ o.base = r.base /\ o.meta = r.meta
       /\ o.z = (IF r.st = "full" THEN Cells(S, a, k) ELSE <<>>)
=============================================================================
