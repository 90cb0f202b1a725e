--------------------------- MODULE RasterIOConf ----------------------------
(* Recorded histories of saving, loading, dumping and changing rasters.      *)
EXTENDS CaseFile, RasterIO
RECURSIVE RunIO(_, _, _, _)
RunIO(c, i, S, bad) ==
  IF i > Len(c.ops) \/ bad # {} THEN bad ELSE
  LET op == c.ops[i]
      T == TLCEval(IOStep(S, op, c.zero, c.def))
  IN RunIO(c, i + 1, T.S,
       {"step " \o ToString(i) \o " " \o op.o \o ": " \o x : x \in Why(T.err = op.err, "refused or not")
          \cup (IF T.err # op.err THEN {} ELSE Why(T.ans = op.ans, "answer")
          \cup Why(\A a \in 1..Len(op.S) : LET o == op.S[a] IN LET r == T.S.R[a] IN
                      o.w = r.w /\ o.h = r.h, "dimensions")
          \cup Why(\A a \in 1..Len(op.S) : IOLooks(T.S.R[a], op.S[a]), "rasters"))})
JudgeIO(c) == RunIO(c, 1, IOStart(c.nr, c.nf, c.def), {})
=============================================================================
