------------------------------- MODULE AppConf --------------------------------
(* Recorded histories of the command-line programs: sequences of programs run *)
(* on files.  The state is the contents of all files - values, shape and what *)
(* goes with them; every step shows all of it.  A program leaves the files it *)
(* reads alone and its output carries on what its input carried.              *)
EXTENDS ApiRel, AppFiles
RF == INSTANCE RegionFill
D == INSTANCE D8

(* ---- files ---------------------------------------------------------------- *)
NoGeo == <<"1000", "1", "0", "1000", "0", "-1">>
Geo(m) == IF m.geo = <<>> THEN NoGeo ELSE m.geo
\* what a program's output carries when it is the raster that was read
Kept(m, cmd) == [m EXCEPT !.geo = Geo(m), !.hist = Append(@, cmd)]
AppRange(s) == {s[i] : i \in 1..Len(s)}

(* ---- relations the programs add to the library's --------------------------- *)
TauToOurs == <<0, 5, 4, 3, 2, 1, 8, 7, 6>>
RelTau(c) == Why(\A x \in Cells(c.w, c.h) : c.out[x] = (IF c.nd[x] = 1 THEN -1 ELSE TauToOurs[c.z[x] + 1]), "directions not translated")
Filled(c) == FI!FillOf(c.z, c.w, c.h, Nb8(c.w, c.h))
RelHas(c) ==
  LET has == Filled(c) # c.z IN Why(c.yes = has /\ c.no = ~has, "depressions reported")
RelFlood(c) ==
  LET F == TLCEval(Filled(c))
      N == Nb8(c.w, c.h)
      K == Components({x \in Cells(c.w, c.h) : F[x] > c.z[x]}, N)
      Small == UNION {S \in K : c.k = 0 \/ Cardinality(S) <= c.k}
  IN Why(\A x \in Cells(c.w, c.h) : c.out[x] = (IF x \in Small THEN F[x] ELSE c.z[x]), "not the filled surface")
RelMask(c) ==
  LET F == TLCEval(Filled(c))
  IN Why(\A x \in Cells(c.w, c.h) : c.out[x] = (IF c.nd[x] = 1 THEN 3 ELSE IF F[x] > c.z[x] THEN 1 ELSE 0), "not the depressions")
\* directions over the filled terrain, which all lead out of the raster
RelFlowdirs(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      E == EdgeCells(c.w, c.h)
      fd == TLCEval(TurnedAll(c.out, c.w, c.h, c.flipH, c.flipV))
      z == TLCEval(TurnedAll(c.z, c.w, c.h, c.flipH, c.flipV))
      n == TLCEval(TurnedAll(c.nd, c.w, c.h, c.flipH, c.flipV))
      ND == TLCEval({x \in C : n[x] = 1})
      Da == TLCEval(C \ ND)
      F == TLCEval(FI!FillOf(z, c.w, c.h, N))
      Lead(x) == Step8(c.w, c.h, x, fd[x])
      To == TLCEval([x \in C |-> IF x \in ND \/ fd[x] \notin 1..8 THEN -1 ELSE Lead(x)])
      Out == {x \in Da : To[x] = 0 \/ To[x] \in ND}
  IN Why(\A x \in ND : fd[x] = 255, "NoData direction")
     \cup Why(\A x \in Da : fd[x] \in 1..8, "cell without direction")
     \cup (IF \E x \in Da : fd[x] \notin 1..8 THEN {} ELSE
       Why(\A x \in Da : IF x \in E THEN To[x] = 0 \/ F[To[x]] <= F[x]
                        ELSE LET L == D!LowestLower(F, c.w, c.h, x) IN IF L # {} THEN fd[x] \in L ELSE F[To[x]] = F[x], "direction")
       \cup Why(Reach(Out, TLCEval([x \in C |-> {y \in N[x] : To[y] = x}])) = Da, "does not drain"))
\* the sea: what lies at its level and is connected to the edge, and NoData
Sea(z, nds, w, h, sea, N) ==
  {x \in Cells(w, h) : nds[x] = 1} \cup RF!PaintedRegion(z, [x \in Cells(w, h) |-> 0], sea, 1, EdgeCells(w, h), N)
AllSea(z, nds, w, h, sea) == {x \in Cells(w, h) : nds[x] = 1 \/ z[x] = sea}
\* depths and levels in thousandths, water given in quarters
RelWater(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      Oc == TLCEval(Sea(c.z, c.nd, c.w, c.h, c.sea, N))
      F == TLCEval(FI!FillTo(c.z, Oc, N))
      Lakes == TLCEval(Components({x \in C : F[x] > c.z[x]}, N))
      W == TLCEval([x \in C |-> 1000 * c.z[x] + c.wet[x]])
      Rain(S) == SumOver(c.rain, S)
      Room(S) == SumOver(F, S) - SumOver(c.z, S)
  IN IF \E x \in C : c.wet[x] < 0 \/ c.wet[x] > 10000000 THEN {"absurd depth"} ELSE
     Why(\A x \in Oc : c.wet[x] = 0, "water on the sea")
     \cup Why(\A x \in C \ Oc : c.wet[x] > 0 => W[x] <= 1000 * F[x] + 2, "water above the outlet")
     \cup Why(\A x \in C : c.wet[x] > 2 => \A n \in N[x] : c.wet[n] > 2 => Abs(W[x] - W[n]) <= 4, "water not level")
     \cup Why(SumOver(c.wet, C) <= 250 * Rain(C \ Oc) + Cardinality(C), "water out of nothing")
     \cup Why(\A L \in Lakes : Rain(L) > 0 => \E x \in L : c.wet[x] > 0, "water lost")
     \cup Why(\A L \in Lakes : Rain(L) > 4 * Room(L) => \A x \in L : Abs(W[x] - 1000 * F[x]) <= 2, "full lake not full")
     \cup Why(\A L \in Lakes : Rain(L) <= 4 * Room(L) => SumOver(c.wet, L) + Cardinality(L) >= 250 * Rain(L), "water lost from a lake with room")
     \cup Why(\A x \in C : c.nd[x] = 0 => Abs(c.top[x] - W[x]) <= 2, "surface height")
\* labels and the tree of depressions, as the two files give them
RelTree(c) ==
  LET C == Cells(c.w, c.h)
      N == Nb8(c.w, c.h)
      Oc == TLCEval(AllSea(c.z, c.nd, c.w, c.h, c.sea))
      L == c.links
      n == Len(L)
      Par(i) == L[i][1]
      ByOcean(i) == L[i][3] = 1
      Kids(p) == {i \in 1..n : Par(i) = p /\ ~ByOcean(i)}
      Leafs == TLCEval({i \in 1..n : Kids(i) = {}})
      RECURSIVE LeafSet(_)
      LeafSet(i) == IF i \in Leafs THEN {i} ELSE UNION {LeafSet(k) : k \in Kids(i)}
      Rim == TLCEval(DH!Rims(c.lab, N))
      Exit(i) == DH!Exits(Rim, c.lab, [k \in 1..(n + 1) |-> LeafSet(k - 1)], i)
      Low(i) == SetMin({DH!PassElev(c.z, p) : p \in Exit(i)})
      B == TLCEval(DH!Bottoms(c.z, C \ Oc, N))
  IN Why(c.head = "parent,child,oceanlink", "heading")
     \cup (IF \E i \in 1..n : Len(L[i]) # 3 \/ L[i][2] # i \/ L[i][1] \notin 0..n \/ L[i][3] \notin {0, 1} THEN {"table"}
           ELSE IF \E i \in 1..n : (~ByOcean(i) /\ Par(i) <= i) \/ Cardinality(Kids(i)) \notin {0, 2} THEN {"tree"}
           ELSE IF \E x \in C : (x \in Oc /\ c.lab[x] # 0) \/ c.lab[x] \notin Leafs \cup {0} THEN {"labels"}
           ELSE IF \E i \in 1..n : Exit(i) = {} THEN {"depression without a way out"}
           ELSE Why(\A i \in 1..n : \E p \in Exit(i) : DH!PassElev(c.z, p) = Low(i) /\
                        (IF ByOcean(i) THEN c.lab[p[2]] = Par(i) ELSE c.lab[p[2]] \in UNION {LeafSet(k) : k \in Kids(Par(i)) \ {i}}), "depression not joined to the one it spills into")
                \cup Why(\A i \in 1..n : ~ByOcean(i) => Low(i) <= Low(Par(i)), "parent lower than its child")
                \cup Why(\A i \in Leafs : \E P \in B : \A x \in P : c.lab[x] = i, "leaf without a bottom")
                \cup Why(\A P \in B : (\E x \in P : \E y \in N[x] \cap Oc : c.z[x] = c.z[y]) \/
                            (\E i \in Leafs : \A x \in P : c.lab[x] = i), "bottom without a leaf")
                \cup Why(Cardinality({P \in B : \A x \in P : c.lab[x] # 0}) = Cardinality(Leafs), "several bottoms in a leaf"))
AppRel(k) ==
  CASE k.rel = "taudem" -> RelTau(k)
    [] k.rel = "has" -> RelHas(k)
    [] k.rel = "flood" -> RelFlood(k)
    [] k.rel = "mask" -> RelMask(k)
    [] k.rel = "flowdirs" -> RelFlowdirs(k)
    [] k.rel = "fsm" -> RelWater(k)
    [] k.rel = "hier" -> RelTree(k)
    [] OTHER -> Rel(k)

(* ---- merged tiles ----------------------------------------------------------- *)
Row(t, cols) == (t - 1) \div cols
Col(t, cols) == (t - 1) % cols
Merged(S, op) ==
  LET T == op.tiles
      rows == Len(T) \div op.cols
      On == {t \in 1..Len(T) : T[t] # 0}
      Wide == [x \in 0..(op.cols - 1) |-> S[T[CHOOSE t \in On : Col(t, op.cols) = x]].w]
      Tall == [y \in 0..(rows - 1) |-> S[T[CHOOSE t \in On : Row(t, op.cols) = y]].h]
      X0 == [x \in 0..op.cols |-> SumOver(Wide, 0..(x - 1))]
      Y0 == [y \in 0..rows |-> SumOver(Tall, 0..(y - 1))]
      w == X0[op.cols]
      h == Y0[rows]
      one == S[T[1]].m
      At(x, y) == LET tx == CHOOSE i \in 0..(op.cols - 1) : X0[i] <= x /\ x < X0[i + 1]
                      ty == CHOOSE i \in 0..(rows - 1) : Y0[i] <= y /\ y < Y0[i + 1]
                      t == T[ty * op.cols + tx + 1]
                  IN IF t = 0 THEN one.nd ELSE Turned(S[t].v, Wide[tx], Tall[ty], op.flipH, op.flipV, x - X0[tx], y - Y0[ty])
  IN [w |-> w, h |-> h, v |-> [c \in Cells(w, h) |-> At(XOf(w, c), YOf(w, c))],
      m |-> [one EXCEPT !.geo = op.F[op.g].m.geo, !.hist = <<>>, !.keys = <<>>]]
WhereOk(S, op) ==
  LET g == <<op.ogeo[1], op.ogeo[2], op.ogeo[4], op.ogeo[6]>>
      w == op.F[op.g].w
      o == op.F[op.g]
  IN /\ op.ogeo[3] = 0 /\ op.ogeo[5] = 0 /\ g[2] = 1 /\ g[4] = -1
     /\ \A t \in {t \in 1..Len(op.tiles) : op.tiles[t] # 0} :
          LET r == S[op.tiles[t]] IN
          \A c \in Cells(r.w, r.h) :
             LET p == Place(op.tgeo[t], XOf(r.w, c), YOf(r.w, c))
                 x == (p[1] - 2 * g[1] - 1) \div 2
                 y == (2 * g[3] - p[2] - 1) \div 2
             IN InGrid(o.w, o.h, x, y) /\ (op.user \/ o.v[CellAt(w, x, y)] = r.v[c])

(* ---- how the files change ---------------------------------------------------- *)
Shown(op) == op.F[op.g]
AppAfter(S, op) ==
  LET r == IF op.f = 0 THEN S[1] ELSE S[op.f]
      Put(f) == Append(S, f)
      Edit(m) == Put([r EXCEPT !.m = m])
  IN
  CASE op.err -> S
    [] op.o = "new" -> Put(Shown(op))
    [] op.o = "expand" -> Put([w |-> op.W, h |-> op.H, v |-> Grown(r.v, r.w, r.h, r.m.nd, op.W, op.H), m |-> Kept(r.m, op.cmd)])
    [] op.o = "setnd" -> Edit([Kept(r.m, op.cmd) EXCEPT !.nd = op.nd])
    [] op.o = "setgeo" -> Edit([Kept(r.m, op.cmd) EXCEPT !.geo = [i \in 1..6 |-> IF op.args[i] = "x" THEN Geo(r.m)[i] ELSE op.args[i]]])
    [] op.o = "setproj" -> Edit([Kept(r.m, op.cmd) EXCEPT !.proj = op.proj])
    [] op.o = "derived" ->
         LET k == Kept(r.m, op.cmd)
         IN Put([w |-> r.w, h |-> r.h, v |-> Shown(op).v,
                 m |-> IF op.to.own THEN k
                       ELSE [k EXCEPT !.nd = op.to.nd, !.ty = op.to.ty]])
    [] op.o = "merge" -> Put(Merged(S, op))
    [] op.o = "fsm" ->
         LET carries == IF op.sf = 0 THEN [hist |-> <<>>, keys |-> <<>>] ELSE [hist |-> S[op.sf].m.hist, keys |-> S[op.sf].m.keys]
             m == [nd |-> r.m.nd, geo |-> Geo(r.m), proj |-> r.m.proj, ty |-> "Float64", keys |-> carries.keys, hist |-> Append(carries.hist, "Unspecified")]
         IN Append(Append(S, [w |-> r.w, h |-> r.h, v |-> op.F[op.g].v, m |-> m]),
                   [w |-> r.w, h |-> r.h, v |-> op.F[op.g2].v, m |-> [m EXCEPT !.hist = Append(@, "Unspecified")]])
    [] op.o = "hier" ->
         Put([w |-> r.w, h |-> r.h, v |-> Shown(op).v,
              m |-> [nd |-> Shown(op).m.nd, geo |-> Geo(r.m), proj |-> r.m.proj, ty |-> "UInt32", keys |-> <<>>, hist |-> <<"Unspecified">>]])
    [] OTHER -> S                                        \* programs that only report

(* ---- what the reporting programs said ---------------------------------------- *)
Flag(b) == IF b THEN 1 ELSE 0
Said(S, op) ==
  CASE op.o = "shownd" -> Why(op.said = S[op.f].m.nd, "NoData value shown")
    [] op.o = "showgeo" -> Why(op.geo = Geo(S[op.f].m) /\ op.wh = <<S[op.f].w, S[op.f].h>>, "geotransform or size shown")
    [] op.o = "compare" ->
         LET a == S[op.f]
             b == S[op.t]
         IN Why(op.said = <<Flag(Geo(a.m) # Geo(b.m)), Flag(a.m.nd # b.m.nd), Flag(a.m.proj # b.m.proj), Flag(a.w # b.w), Flag(a.h # b.h)>>, "differences shown")
            \cup Why((a.w # b.w \/ a.h # b.h) \/ op.count = Cardinality({i \in 1..Len(a.v) : a.v[i] # b.v[i]}), "number of differing values")
    [] op.o = "merge" -> Why(op.err \/ WhereOk(S, op), "merged cells lie elsewhere")
    [] op.o = "hist" ->
         LET r == S[op.f]
         IN Why(Len(op.bars) = Cardinality(AppRange(r.v)) /\ \A i \in 1..Len(op.bars) : op.bars[i][2] > 0 /\ op.bars[i][2] = Cardinality({x \in 1..Len(r.v) : r.v[x] = op.bars[i][1]}), "counts")
            \cup Why(op.said = r.m.nd, "NoData value shown")
    [] op.o = "refusal" -> Why(~op.left, "a file left behind")
    [] op.o = "history" -> Why(op.hist = S[op.f].m.hist /\ op.none = (S[op.f].m.hist = <<>>), "history shown")
    [] op.o = "show" ->
         LET r == S[op.f]
             w == op.win[2] - op.win[1] + 1
             h == op.win[4] - op.win[3] + 1
         IN IF op.bad THEN {} ELSE
            Why(op.got = [i \in 1..(w * h) |-> Turned(op.num, r.w, r.h, op.flipH, op.flipV, op.win[1] + XOf(w, i), op.win[3] + YOf(w, i))], "values shown")
    [] OTHER -> {}
\* what has to be refused
Refused(S, op) ==
  CASE op.o = "fsm" -> Sea(op.z, op.nds, S[op.f].w, S[op.f].h, op.sea, Nb8(S[op.f].w, S[op.f].h)) = {}
    [] op.o = "hier" -> AllSea(op.z, op.nds, S[op.f].w, S[op.f].h, op.sea) = {}
    [] op.o = "merge" -> \E t \in AppRange(op.tiles) \ {0} : S[t].w # S[op.tiles[1]].w \/ S[t].h # S[op.tiles[1]].h
    [] OTHER -> op.bad

\* (with nothing but sea there is no hierarchy: left open)
Open(S, op) ==
  CASE op.o = "fsm" -> Sea(op.z, op.nds, S[op.f].w, S[op.f].h, op.sea, Nb8(S[op.f].w, S[op.f].h)) = Cells(S[op.f].w, S[op.f].h)
    [] op.o = "hier" -> AllSea(op.z, op.nds, S[op.f].w, S[op.f].h, op.sea) = Cells(S[op.f].w, S[op.f].h)
    [] OTHER -> FALSE

RECURSIVE RunApp(_, _, _)
RunApp(c, i, S) ==
  IF i > Len(c.ops) THEN {} ELSE
  LET op == c.ops[i]
      At(r) == {"step " \o ToString(i) \o " " \o op.o \o (IF "cmd" \in DOMAIN op THEN " " \o op.cmd ELSE "") \o ": " \o x : x \in r}
  IN IF op.err # Refused(S, op) /\ ~Open(S, op) THEN At({IF op.err THEN "failed" ELSE "not refused"}) ELSE
     IF ~op.err /\ op.o \in {"new", "expand", "setnd", "setgeo", "setproj", "derived", "merge", "fsm", "hier"} /\ op.g = 0 THEN At({"no output"}) ELSE
     LET T == TLCEval(AppAfter(S, op))
         bad == IF Len(op.F) # Len(T) THEN {"number of files"} ELSE
                UNION {LET r == T[f] IN LET o == op.F[f] IN
                    Why(o.v = r.v, "values of file " \o ToString(f))
                    \cup Why(o.w = r.w /\ o.h = r.h, "shape of file " \o ToString(f))
                    \cup UNION {Why(o.m[k] = r.m[k], k \o " of file " \o ToString(f)) : k \in {"nd", "geo", "proj", "hist", "keys", "ty"}} : f \in 1..Len(T)}
                \cup Said(S, op)
                \cup (IF op.err THEN {} ELSE AppRel(op.k))
     IN IF bad # {} THEN At(bad) ELSE RunApp(c, i + 1, T)
JudgeApp(c) == RunApp(c, 1, <<>>)
=============================================================================
