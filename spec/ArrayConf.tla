----------------------------- MODULE ArrayConf -----------------------------
(* Recorded histories of raster containers and of the memory wrapper, run    *)
(* through the specification step by step.                                   *)
EXTENDS CaseFile, Container, ManagedVec

RECURSIVE RunArray(_, _, _, _)
RunArray(c, i, S, bad) ==
  IF i > Len(c.steps) \/ bad # {} THEN bad ELSE
  LET op == c.steps[i]
      T == TLCEval(Step(S, op, c.k, c.def, c.tmin, c.tmax))
      n == Len(op.S)
      half == Len(op.B) \div 2
  IN RunArray(c, i + 1, T.S,
       {"step " \o ToString(i) \o " " \o op.o \o ": " \o x : x \in Why(T.err = op.err, "refused or not")
          \cup Why(T.res = op.res, "answer")
          \cup Why(\A a \in 1..n : Looks(T.S, a, c.k, op.S[a]), "rasters")
          \cup Why(T.S.B = <<SubSeq(op.B, 1, half), SubSeq(op.B, half + 1, 2 * half)>>, "foreign memory")
          \cup Why(op.bad = 0, "freed what it does not own")})

JudgeArray(c) ==
  LET half == Len(c.B) \div 2
      B == <<SubSeq(c.B, 1, half), SubSeq(c.B, half + 1, 2 * half)>>
      v == IF c.steps = <<>> THEN {}
           ELSE IF c.mode = "mv" THEN RunVec(c, 1, VStart(4, B), {})
           ELSE RunArray(c, 1, Start(Len(c.steps[1].S), B, c.def), {})
  IN v \cup Why(c.endbad = 0, "freed what it does not own") \cup Why(c.endlive = 0, "storage never freed")
=============================================================================
