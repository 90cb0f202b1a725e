------------------------------ MODULE PyApiConf ------------------------------
(* Recorded histories of the Python interface: arrays, windows onto them,    *)
(* calls of the library (in place or not), files, and the command-line       *)
(* entry points.  Every step shows everything the user can see: the values   *)
(* and metadata of all arrays and files.                                    *)
EXTENDS ApiRel, PyHeap

(* ---- how the state changes ------------------------------------------------ *)
Plus(m, name) == [m EXCEPT !.hist = Append(@, name)]
See(op, a) == op.S[a].v
\* the metadata of a result derived from array a
From(S, a, name, nd, ty) == [Plus(S.A[a].m, name) EXCEPT !.nd = nd, !.ty = ty]
PutFile(S, f, r) == IF f <= Len(S.F) THEN [S EXCEPT !.F[f] = r] ELSE [S EXCEPT !.F = Append(@, r)]
GdalType(t) == IF t \in {"uint8", "int16", "int32", "uint16", "uint32", "float32"} THEN t ELSE "float64"
AsSaved(m) == [m EXCEPT !.ty = GdalType(@), !.geo = IF @ = "none" THEN "0,1,0,0,0,1" ELSE @]
\* history of any array may be noted before a call is refused
Noted(S, op) == [S EXCEPT !.A = [a \in 1..Len(@) |-> [@[a] EXCEPT !.m.hist = op.S[a].m.hist]]]

PyAfter(S, op) ==
  LET n == Len(S.A) + 1 IN
  CASE op.bad -> Noted(S, op)
    [] op.o = "new" -> Fresh(S, op.v, op.w, op.h, op.k3, op.m)
    [] op.o = "view" -> Window2(S, op.a, op.win)
    [] op.o = "copy" -> Fresh(S, Values(S, op.a), S.A[op.a].w, S.A[op.a].h, S.A[op.a].k, S.A[op.a].m)
    [] op.o = "set" -> WriteOne(S, op.a, op.i, op.x)
    [] op.o = "attrs" -> SetMeta(S, op.a, op.m)
    [] op.o = "change" ->                                  \* FillDepressions, BreachDepressions, ResolveFlats
         LET m == Plus(S.A[op.a].m, op.fn) IN
         IF op.inplace THEN SetMeta(Overwrite(S, op.a, See(op, op.a)), op.a, m)
         ELSE Fresh(S, See(op, n), S.A[op.a].w, S.A[op.a].h, 1, m)
    [] op.o = "accum" ->                                   \* wa: weights (0: none)
         LET A == S.A[op.a] IN
         IF op.inplace /\ op.wa # 0
         THEN LET T == Alias(S, op.wa, [op.S[n].m EXCEPT !.nd = op.nd, !.ty = "float64"]) IN Overwrite(T, n, See(op, n))
         ELSE Fresh(S, See(op, n), A.w, A.h, 1, From(S, op.a, op.fn, op.nd, "float64"))
    [] op.o = "derive" -> Fresh(S, See(op, n), S.A[op.a].w, S.A[op.a].h, op.k3, From(S, op.a, op.fn, op.nd, "float32"))
    [] op.o = "perlin" -> [Fresh(S, See(op, n), op.size, op.size, 1, op.m) EXCEPT !.G = Append(@, <<op.size, op.seed, See(op, n)>>)]
    [] op.o = "hier" ->                                    \* labels in place, directions new
         LET T == SetMeta(Overwrite(S, op.lab, See(op, op.lab)), op.lab, S.A[op.lab].m)
         IN Fresh(T, See(op, n), S.A[op.a].w, S.A[op.a].h, 1, op.m)
    [] op.o = "fsm" -> Overwrite(S, op.wtd, See(op, op.wtd))
    [] op.o = "save" -> PutFile(S, op.f, [v |-> Values(S, op.a), w |-> S.A[op.a].w, h |-> S.A[op.a].h, m |-> AsSaved(S.A[op.a].m)])
    [] op.o = "load" -> LET r == S.F[op.f] IN Fresh(S, r.v, r.w, r.h, 1, Plus(r.m, "LoadGDAL"))
    [] op.o = "cli" ->                                     \* file to file
         LET r == S.F[op.f]
             m == Plus(Plus(Plus(r.m, "LoadGDAL"), op.cmd), op.fn)
         IN PutFile(S, op.g, [v |-> op.F[op.g].v, w |-> r.w, h |-> r.h, m |-> AsSaved([m EXCEPT !.nd = IF op.nd = 0 THEN @ ELSE op.nd, !.ty = IF op.ty = "" THEN @ ELSE op.ty])])
    [] op.o = "report" -> S                                 \* rd_compare, rd_info
    [] op.o = "refused" -> S

Again(S, op) == op.o = "perlin" => \A i \in 1..Len(S.G) : S.G[i][1] = op.size /\ S.G[i][2] = op.seed => S.G[i][3] = See(op, Len(S.A) + 1)

RECURSIVE RunPy(_, _, _)
RunPy(c, i, S) ==
  IF i > Len(c.ops) THEN {} ELSE
  LET op == c.ops[i]
      At(r) == {"step " \o ToString(i) \o " " \o op.o \o " " \o op.fn \o ": " \o x : x \in r}
  IN IF op.err # op.bad THEN At({IF op.err THEN "failed" ELSE "not refused"}) ELSE
     LET T == TLCEval(PyAfter(S, op))
         bad == Why(Len(op.S) = Len(T.A) /\ Len(op.F) = Len(T.F), "number of arrays or files")
                \cup (IF Len(op.S) # Len(T.A) \/ Len(op.F) # Len(T.F) THEN {} ELSE
                  UNION {LET A == T.A[a] IN LET o == op.S[a] IN
                     Why(o.v = Values(T, a), "values of array " \o ToString(a))
                     \cup Why(o.w = A.w /\ o.h = A.h, "shape of array " \o ToString(a))
                     \cup UNION {Why(o.m[f] = A.m[f], f \o " of array " \o ToString(a)) : f \in {"nd", "geo", "proj", "hist", "keys", "ty"}} : a \in 1..Len(T.A)}
                  \cup UNION {Why(op.F[f].v = T.F[f].v /\ op.F[f].w = T.F[f].w, "values of file " \o ToString(f))
                     \cup UNION {Why(op.F[f].m[g] = T.F[f].m[g], g \o " of file " \o ToString(f)) : g \in {"nd", "geo", "proj", "hist", "keys", "ty"}} : f \in 1..Len(T.F)})
                \cup Why(Again(S, op), "same seed, other terrain")
                \cup (IF op.bad THEN {} ELSE Rel(op.k))
     IN IF bad # {} THEN At(bad) ELSE RunPy(c, i + 1, T)
JudgePy(c) == RunPy(c, 1, [H |-> <<>>, A |-> <<>>, F |-> <<>>, G |-> <<>>])
=============================================================================
