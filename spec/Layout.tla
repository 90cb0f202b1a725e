------------------------------- MODULE Layout ------------------------------
(* Layout files: rows of comma separated names, given as sequences of        *)
(* character codes.                                                          *)
EXTENDS Integers, Sequences, TLC
NL == 10
COMMA == 44
BLANK == 32
SLASH == 47
DOT == 46
\* pieces of s between separators; what follows the last one counts only if it is not empty
RECURSIVE Pieces(_, _, _)
Pieces(s, sep, cur) ==
  IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF s[1] = sep THEN <<cur>> \o Pieces(Tail(s), sep, <<>>)
  ELSE Pieces(Tail(s), sep, Append(cur, s[1]))
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] = BLANK THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] = BLANK THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
Positions(s, c) == {i \in 1..Len(s) : s[i] = c}
LastOf(s, c) == LET P == Positions(s, c) IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i >= j
FileOf(s) == SubSeq(s, LastOf(s, SLASH) + 1, Len(s))
BaseOf(s) == LET f == FileOf(s)
                 d == LastOf(f, DOT)
             IN IF d = 0 THEN f ELSE SubSeq(f, 1, d - 1)
\* the grid of names a text describes; <<>> if it is to be rejected
Grid(text) ==
  LET lines == TLCEval(Pieces(text, NL, <<>>))
      rows == TLCEval([y \in 1..Len(lines) |-> LET it == Pieces(lines[y], COMMA, <<>>) IN [x \in 1..Len(it) |-> Trim(it[x])]])
      RECURSIVE Widest(_, _)
      Widest(y, m) == IF y > Len(rows) THEN m ELSE Widest(y + 1, IF Len(rows[y]) > m THEN Len(rows[y]) ELSE m)
      w == Widest(1, 0)
  IN IF w = 0 \/ \E y \in 1..Len(rows) : Len(rows[y]) < w - 1 THEN <<>>
     ELSE [y \in 1..Len(rows) |-> IF Len(rows[y]) = w THEN rows[y] ELSE Append(rows[y], <<>>)]
\* what the reader must say about the i-th entry it visits
EntryFaults(g, i, e) ==
  LET w == Len(g[1])
      x == (i - 1) % w
      y == (i - 1) \div w
      name == g[y + 1][x + 1]
      W(b, s) == IF b THEN {} ELSE {s}
  IN W(e.x = x /\ e.y = y, "coordinates") \cup W(e.name = name, "name") \cup W(e.gap = (name = <<>>), "gap")
     \cup W(e.row = (x = 0), "row start") \cup W(e.base = BaseOf(name), "base name") \cup W(e.full, "path") \cup W(e.loc, "location name")
\* what a writer puts in the file for a grid of names
RECURSIVE Joins(_, _)
Joins(seqs, sep) == IF seqs = <<>> THEN <<>> ELSE IF Len(seqs) = 1 THEN seqs[1] ELSE seqs[1] \o sep \o Joins(Tail(seqs), sep)
Entry(s) == IF FileOf(s) = <<>> THEN <<BLANK>> ELSE FileOf(s)
Text(g) == Joins([y \in 1..Len(g) |-> Joins([x \in 1..Len(g[y]) |-> Entry(g[y][x])], <<COMMA>>)], <<NL>>) \o <<NL>>
=============================================================================
