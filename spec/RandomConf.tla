----------------------------- MODULE RandomConf ----------------------------
(* Recorded draws, seedings, saves and sets against the generators.          *)
EXTENDS CaseFile, RandomGen
\* st: generators, slots, facts about draws, facts about terrain, faults
Step(T, st, e, k, where) ==
  CASE e.o = "seed" -> [st EXCEPT !.gen = IF e.zero THEN [t \in T |-> Entropy(<<where, k>>, t)] ELSE SeedAll(T, e.s)]
    [] e.o = "save" -> [st EXCEPT !.slot = [s \in 0..2 |-> IF s = e.k THEN st.gen[e.t] ELSE st.slot[s]]]
    [] e.o = "set" -> [st EXCEPT !.gen[e.t] = st.slot[e.k]]
    [] e.o = "draw" ->
         [st EXCEPT !.gen[e.t] = After(@, e.what), !.facts = @ \cup {<<st.gen[e.t], e.what, e.v>>},
            !.bad = @ \cup Why(~e.ints \/ (e.min >= e.lo /\ e.max <= e.hi), "integer draw out of bounds")
                      \cup Why(~e.many \/ (e.min = e.lo /\ e.max = e.hi), "bounds are not inclusive")
                      \cup Why(e.in, "real draw out of bounds")]
    [] e.o = "perlin" -> [st EXCEPT !.land = @ \cup {<<e.n, e.s, e.v, e.c>>}, !.bad = @ \cup Why(e.in, "terrain out of range")]
    [] e.o = "oblong" -> [st EXCEPT !.bad = @ \cup Why(e.refused, "an oblong raster was filled")]
RECURSIVE Along(_, _, _, _, _)
Along(T, st, log, k, where) == IF k > Len(log) THEN st ELSE Along(T, TLCEval(Step(T, st, log[k], k, where)), log, k + 1, where)
Start(T, where) == [gen |-> [t \in T |-> Fresh(<<where, t>>)], slot |-> [s \in 0..2 |-> Fresh(<<where, "unsaved">>)], facts |-> {}, land |-> {}, bad |-> {}]
\* (e.c: terrain seeds are told apart modulo 2^31-1, 0 standing for 1)
JudgeRandom(c) ==
  LET T == 0..31
      A == Along(T, Start(T, "here"), c.here, 1, "here")
      B == Along(T, Start(T, "there"), c.there, 1, "there")
      F == TLCEval(A.facts \cup B.facts)
      L == TLCEval(A.land \cup B.land)
      Probes == TLCEval({f \in F : f[2] = "probe"})
  IN IF Len(c.here) # Len(c.there) THEN {"the processes did different things"} ELSE
     A.bad \cup B.bad
     \cup Why(Cardinality({<<f[1], f[2]>> : f \in F}) = Cardinality(F), "a draw is not determined by the seed and the draws before it")
     \cup Why(\A f, g \in Probes : f[1].from # g[1].from => f[3] # g[3], "different seeds or threads draw the same values")
     \cup Why(Cardinality({<<f[1], f[2]>> : f \in L}) = Cardinality(L), "terrain is not determined by its seed")
     \cup Why(\A f, g \in L : (f[1] = g[1] /\ f[4] # g[4]) => f[3] # g[3], "different seeds give the same terrain")
=============================================================================
