----------------------------- MODULE RandomGen -----------------------------
(* Per-thread random generators.  A generator's state is where it came from  *)
(* (a seeding and a thread, or entropy) and the draws made from it since; a  *)
(* drawn value is a function of that state and of what is asked, so saving a *)
(* state and setting it again, on any thread and at any time, continues it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(origin) == [from |-> origin, drawn |-> <<>>]
Seeded(seed, thread) == Fresh(<<"seed", seed, thread>>)
Entropy(k, thread) == Fresh(<<"entropy", k, thread>>)
After(g, what) == [g EXCEPT !.drawn = Append(@, what)]
\* seeding touches the generators of all threads, running or not
SeedAll(T, seed) == [t \in T |-> Seeded(seed, t)]
\* a set of facts <<state, request, value>> is consistent when it is a function
Functional(F) == \A a, b \in F : (a[1] = b[1] /\ a[2] = b[2]) => a[3] = b[3]
\* generators of different origin are different
Unlike(F) == \A a, b \in F : (a[1].from # b[1].from /\ a[2] = b[2]) => a[3] # b[3]
=============================================================================
