--------------------------- MODULE RasterIOModel ---------------------------
(* Every short history of two rasters sharing one GDAL file and two native   *)
(* files: saving and loading give back what was saved, caches never lose a   *)
(* modification, histories only grow.                                        *)
EXTENDS RasterIO
CONSTANTS W, H, Vals, Depth
VARIABLES S, ghost, writer, last, depth
vars == <<S, ghost, writer, last, depth>>
Op(o, a, b, f, p) == [o |-> o, a |-> a, b |-> b, f |-> f, p |-> p, z |-> <<>>, geo |-> <<>>]
Do(T, op) == IOStep(T, op, 0, 9)
G == {<<>>, <<10, 2, 0, 20, 1, -3>>}
Init == \E z \in [1..(W * H) -> Vals], g \in G :
          /\ S = Do(IOStart(2, 3, 9), [Op("new", 1, 1, 0, <<W, H, 1, 4, 5>>) EXCEPT !.z = z, !.geo = g]).S
          /\ ghost = <<z, <<>>>> /\ writer = [f \in 1..3 |-> 0] /\ last = "new" /\ depth = 0
Data(a) == S.R[a].st = "data"
Out(a) == S.R[a].st = "out"
\* a file that a raster out of RAM will read must not change under a window of it
Free(f) == \A a \in 1..2 : ~(Out(a) /\ S.R[a].fn = f)
Ops == {Op("set", a, a, 0, <<x, 0, v>>) : a \in 1..2, x \in 0..(W - 1), v \in Vals}
       \cup {Op("gsave", a, a, 1, <<7, x, x, 0>>) : a \in 1..2, x \in 0..1}
       \cup {Op("gload", a, a, 1, <<x, 0, k, 0, 0, l>>) : a \in 1..2, x \in 0..(W - 1), k \in 1..W, l \in 0..1}
       \cup {Op("nsave", a, a, f, <<>>) : a \in 1..2, f \in 2..3} \cup {Op("nload", a, a, f, <<1>>) : a \in 1..2, f \in 2..3}
       \cup {Op("cache", a, a, f, <<>>) : a \in 1..2, f \in 2..3} \cup {Op("copy", a, b, 0, <<>>) : a, b \in 1..2}
       \cup {Op(o, a, a, 0, <<>>) : o \in {"dump", "load"}, a \in 1..2}
Allowed(op) ==
  /\ op.o \in {"set", "gsave", "nsave", "cache"} => Data(op.a)
  /\ op.o = "set" => op.p[1] < S.R[op.a].w
  /\ op.o = "copy" => op.a # op.b /\ S.R[op.b].st # "none"
  /\ op.o = "gload" => S.F[1].kind = "gdal" /\ op.p[1] < S.F[1].w
  /\ op.o = "gsave" => Free(1)
  /\ op.o = "dump" => S.R[op.a].st # "none" /\ S.R[op.a].fn \in 2..3
  /\ op.o = "load" => Out(op.a)
Next == /\ depth < Depth /\ depth' = depth + 1
        /\ \E op \in Ops :
             /\ Allowed(op)
             /\ LET T == Do(S, op).S
                    wrote == CASE op.o \in {"gsave", "nsave"} -> op.f [] op.o = "dump" /\ Data(op.a) -> S.R[op.a].fn [] OTHER -> 0
                IN /\ S' = T /\ last' = op.o
                   /\ writer' = IF wrote = 0 THEN writer ELSE [writer EXCEPT ![wrote] = op.a]
                   \* what the owner of raster a thinks it holds
                   /\ ghost' = CASE op.o = "set" -> [ghost EXCEPT ![op.a][op.p[2] * S.R[op.a].w + op.p[1] + 1] = op.p[3]]
                                 [] op.o \in {"gload", "nload"} -> [ghost EXCEPT ![op.a] = T.R[op.a].z]
                                 [] op.o = "copy" -> [ghost EXCEPT ![op.a] = ghost[op.b]]
                                 [] op.o = "load" /\ writer[S.R[op.a].fn] # op.a -> [ghost EXCEPT ![op.a] = T.R[op.a].z]
                                 [] OTHER -> ghost
Spec == Init /\ [][Next]_vars
NoLostModification ==
  \A a \in 1..2 : /\ Data(a) => S.R[a].z = ghost[a]
                  /\ (Out(a) /\ S.R[a].src = "native" /\ writer[S.R[a].fn] = a) => S.F[S.R[a].fn].z = ghost[a]
Same(r, q) == r.w = q.w /\ r.h = q.h /\ r.z = q.z /\ r.nd = q.nd /\ r.proj = q.proj
RoundTrips ==
  \A a \in 1..2 : Data(a) =>
    LET r == S.R[a]
        g == Do(Do(S, Op("gsave", a, a, 1, <<8, 0, 0, 0>>)).S, Op("gload", a, a, 1, <<0, 0, 0, 0, 0, 1>>)).S.R[a]
        m == Do(Do(S, Op("nsave", a, a, 2, <<>>)).S, Op("nload", a, a, 2, <<1>>)).S.R[a]
        d == Do(Do(Do(Do(S, Op("cache", a, a, 3, <<>>)).S, Op("dump", a, a, 0, <<>>)).S, Op("dump", a, a, 0, <<>>)).S, Op("load", a, a, 0, <<>>)).S.R[a]
    IN /\ Same(g, r) /\ (r.geo # <<>> => g.geo = r.geo) /\ g.hist = Append(r.hist, 8) /\ g.note = r.note
       /\ Same(m, r) /\ m.geo = r.geo
       /\ Same(d, r) /\ d.geo = r.geo /\ d.hist = r.hist
\* windows side by side make up the raster
Windows ==
  S.F[1].kind = "gdal" =>
    \A x \in 1..(S.F[1].w - 1) :
      LET l == Do(S, Op("gload", 1, 1, 1, <<0, 0, x, S.F[1].h, 0, 1>>)).S.R[1]
          r == Do(S, Op("gload", 1, 1, 1, <<x, 0, S.F[1].w, S.F[1].h, 0, 1>>)).S.R[1]
      IN /\ l.w = x /\ r.w = S.F[1].w - x
         /\ S.F[1].z = [i \in 1..(S.F[1].w * S.F[1].h) |-> LET cx == (i - 1) % S.F[1].w
                                                               cy == (i - 1) \div S.F[1].w
                                                           IN IF cx < x THEN l.z[cy * x + cx + 1] ELSE r.z[cy * r.w + cx - x + 1]]
Grows(a) == Len(S'.R[a].hist) >= Len(S.R[a].hist) /\ SubSeq(S'.R[a].hist, 1, Len(S.R[a].hist)) = S.R[a].hist
\* only being replaced by another raster takes a history away
HistoryGrows == [][\A a \in 1..2 : (last' \in {"set", "gsave", "nsave", "cache", "dump", "load"}) =>
                      (Grows(a) /\ Len(S'.R[a].hist) <= Len(S.R[a].hist) + (IF last' = "gsave" THEN 1 ELSE 0))]_vars
=============================================================================
