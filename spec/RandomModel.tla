---------------------------- MODULE RandomModel ----------------------------
(* The generators as the library keeps them: one engine per thread, engines  *)
(* numbered by what seeded them, and a distribution object that hands out    *)
(* the values it has kept.  Every history of seeding, drawing, saving and    *)
(* setting keeps the drawn values a function of the abstract state.          *)
(* Variants: a seeding that multiplies seed and thread, one that reaches     *)
(* only the running threads, and normal draws that come in pairs and keep    *)
(* the second value in the distribution.                                     *)
EXTENDS RandomGen
CONSTANTS NT, SeedVals, MaxOps, Keyed, Reach, Paired
T == 0..(NT - 1)
VARIABLES gen,   \* abstract generators
          eng,   \* engines: [key, pos]
          kept,  \* value kept by each thread's normal distribution, or none
          saved, facts, ops, running
vars == <<gen, eng, kept, saved, facts, ops, running>>
None == <<>>
Key(s, t) == IF Keyed = "product" THEN <<s * t>> ELSE <<s, t>>
Boot == [key |-> <<"boot">>, pos |-> 0]
Init == /\ gen = [t \in T |-> Fresh(<<"boot", 0, t>>)] /\ eng = [t \in T |-> Boot]
        /\ kept = [t \in T |-> None] /\ saved = None /\ facts = {} /\ ops = 0 /\ running \in 1..NT
Seed(s) == /\ gen' = SeedAll(T, s)
           /\ eng' = [t \in T |-> IF Reach = "running" /\ t >= running THEN eng[t] ELSE [key |-> Key(s, t), pos |-> 0]]
           /\ UNCHANGED <<kept, saved, facts, running>>
Pass(t, what, v) == /\ gen' = [gen EXCEPT ![t] = After(@, what)]
                    /\ facts' = IF gen[t].from[1] = "boot" THEN facts ELSE facts \cup {<<gen[t], what, v>>}
                    /\ UNCHANGED <<saved, running>>
Bits(t) == /\ Pass(t, "bits", <<"bits", eng[t]>>)
           /\ eng' = [eng EXCEPT ![t].pos = @ + 1] /\ UNCHANGED kept
Normal(t) == IF Paired /\ kept[t] # None
             THEN /\ Pass(t, "normal", kept[t]) /\ kept' = [kept EXCEPT ![t] = None] /\ UNCHANGED eng
             ELSE /\ Pass(t, "normal", <<"normal", eng[t]>>)
                  /\ kept' = IF Paired THEN [kept EXCEPT ![t] = <<"other", eng[t]>>] ELSE kept
                  /\ eng' = [eng EXCEPT ![t].pos = @ + 2]
Save(t) == saved' = <<gen[t], eng[t]>> /\ UNCHANGED <<gen, eng, kept, facts, running>>
Set(t) == /\ saved # None /\ gen' = [gen EXCEPT ![t] = saved[1]] /\ eng' = [eng EXCEPT ![t] = saved[2]]
          /\ UNCHANGED <<kept, saved, facts, running>>
Threads == running' \in 1..NT /\ UNCHANGED <<gen, eng, kept, saved, facts>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E s \in SeedVals : Seed(s)
           \/ \E t \in T : Bits(t) \/ Normal(t) \/ Save(t) \/ Set(t)
           \/ (Reach = "running" /\ Threads)
Spec == Init /\ [][Next]_vars
Reproducible == Functional(facts)
Different == Unlike(facts)
=============================================================================
