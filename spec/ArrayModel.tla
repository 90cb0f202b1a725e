----------------------------- MODULE ArrayModel ----------------------------
(* Every short history of raster operations on small rasters: what the       *)
(* specification of containers promises as a whole.                          *)
EXTENDS Container
CONSTANTS W, H, Vals, Depth
VARIABLES S, last, prev, depth
vars == <<S, last, prev, depth>>
Op(o, a, b, p) == [o |-> o, a |-> a, b |-> b, p |-> p]
Do(o, a, b, p) == Step(S, Op(o, a, b, p), 1, -1, -1, 99)
Init == \E z \in [1..(W * H) -> Vals] : /\ S = [Start(2, <<[i \in 1..(W * H) |-> 7]>>, -1) EXCEPT !.R[1] = NewReg(W, H, z, -1)]
                                        /\ last = Op("init", 1, 1, <<>>) /\ prev = S /\ depth = 0
Full(a) == S.R[a].st = "full"
Ops == {Op(o, a, a, <<>>) : o \in {"flipvert", "fliphorz", "transpose", "clear"}, a \in 1..2}
       \cup {Op(o, a, b, <<>>) : o \in {"copy", "move"}, a, b \in 1..2}
       \cup {Op("wrap", a, a, <<w, H, 1>>) : a \in 1..2, w \in 1..W} \cup {Op("set", a, a, <<0, 0, v>>) : a \in 1..2, v \in Vals}
       \cup {Op("expand", a, a, <<W + 1, H, 5>>) : a \in 1..2} \cup {Op("resize", a, a, <<W, H, 4>>) : a \in 1..2}
       \cup {Op("template", a, b, <<3>>) : a, b \in 1..2} \cup {Op("poke", 1, 1, <<1, 0, v>>) : v \in Vals}
Allowed(op) ==
  /\ op.o \in {"flipvert", "fliphorz", "transpose", "set", "expand", "clear", "resize"} => Full(op.a)
  /\ op.o \in {"copy", "move", "template"} => Full(op.b) /\ op.a # op.b
Next == /\ depth < Depth
        /\ \E op \in Ops : /\ Allowed(op)
                           /\ S' = Step(S, op, 1, -1, -1, 99).S /\ last' = op /\ prev' = S /\ depth' = depth + 1
Spec == Init /\ [][Next]_vars
Twice(o, a) == Step(Step(S, Op(o, a, a, <<>>), 1, -1, -1, 99).S, Op(o, a, a, <<>>), 1, -1, -1, 99).S
Involutions == \A a \in 1..2 : Full(a) => \A o \in {"flipvert", "fliphorz", "transpose"} : Twice(o, a) = S
\* what is done to one raster shows in the other only through foreign memory
Independent ==
  \A a \in 1..2 : (depth > 0 /\ last.o \in {"flipvert", "fliphorz", "transpose", "set", "expand", "resize", "clear"} /\ last.a # a /\ prev.R[a].own = 0)
                  => S.R[a] = prev.R[a]
CopiesEqual == (depth > 0 /\ last.o = "copy") => /\ Cells(S, last.a, 1) = Cells(S, last.b, 1) /\ S.R[last.a].own = 0
WritesThrough == \A a \in 1..2 : (depth > 0 /\ Full(a) /\ S.R[a].own = 1 /\ last.o = "set" /\ last.a = a) => S.B[1][1] = last.p[3]
OldKept == (depth > 0 /\ last.o = "expand" /\ Full(last.a) /\ S # prev) =>
             \A x \in 0..(prev.R[last.a].w - 1), y \in 0..(prev.R[last.a].h - 1) :
                Cells(S, last.a, 1)[y * S.R[last.a].w + x + 1] = Cells(prev, last.a, 1)[y * prev.R[last.a].w + x + 1]
=============================================================================
