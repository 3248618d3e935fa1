-------------------------------- MODULE Par ---------------------------------
(* The parallel phases of a time step.  A parallel region is a set of logical *)
(* threads, each running its own sequence of accesses to shared words; they   *)
(* interleave arbitrarily.  Accesses under the region's lock are commutative  *)
(* updates (insert into a collection, add to a counter).                      *)
(* Claim checked here: if no word is written by one thread and touched by     *)
(* another one, except under the lock by both, the outcome of the region does *)
(* not depend on the schedule.  ParTrace applies the premise to footprints    *)
(* recorded from the real program.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Words, Len0

Ops == {"r", "w", "l"} \X Words          \* read, write, locked update
Progs == [1..Len0 -> Ops]

VARIABLES prog, pc, mem, reg
vars == <<prog, pc, mem, reg>>

Touch(ops, kinds, x) == {t \in Threads : \E i \in 1..Len0 : ops[t][i][2] = x /\ ops[t][i][1] \in kinds}
\* the premise, over sets of threads that read, write, update-under-lock one word
ConflictFree(r, w, rl, wl) ==
  /\ \A t \in w : (r \cup w \cup rl \cup wl) \subseteq {t}
  /\ \A t \in wl : (r \cup w) \subseteq {t}
Premise == \A x \in Words : ConflictFree(Touch(prog, {"r"}, x), Touch(prog, {"w"}, x), Touch(prog, {"l"}, x), Touch(prog, {"l"}, x))

Init == /\ prog \in [Threads -> Progs] /\ pc = [t \in Threads |-> 1]
        /\ mem = [x \in Words |-> 0] /\ reg = [t \in Threads |-> t]
Apply(t, op, m, rg) ==     \* -> <<memory, register>>
  CASE op[1] = "r" -> <<m, (rg * 3 + m[op[2]] + 1) % 7>>
    [] op[1] = "w" -> <<[m EXCEPT ![op[2]] = (rg * 5 + t + 2) % 7], rg>>
    [] op[1] = "l" -> <<[m EXCEPT ![op[2]] = @ + rg], rg>>
Step(t) == /\ pc[t] <= Len0
           /\ LET z == Apply(t, prog[t][pc[t]], mem, reg[t]) IN mem' = z[1] /\ reg' = [reg EXCEPT ![t] = z[2]]
           /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED prog
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

\* reference: the threads one after another
RECURSIVE Run(_, _, _, _), Seqn(_, _, _)
Run(t, i, m, rg) == IF i > Len0 THEN <<m, rg>> ELSE LET z == Apply(t, prog[t][i], m, rg) IN Run(t, i + 1, z[1], z[2])
Seqn(ts, m, regs) == IF ts = {} THEN <<m, regs>>
   ELSE LET t == CHOOSE u \in ts : \A v \in ts : u <= v
            z == Run(t, 1, m, t) IN Seqn(ts \ {t}, z[1], [regs EXCEPT ![t] = z[2]])
Done == \A t \in Threads : pc[t] > Len0
ScheduleFree == Done /\ Premise => <<mem, reg>> = Seqn(Threads, [x \in Words |-> 0], [t \in Threads |-> t])
\* not vacuous: without the premise the outcome does depend on the schedule
AlwaysScheduleFree == Done => <<mem, reg>> = Seqn(Threads, [x \in Words |-> 0], [t \in Threads |-> t])
=============================================================================
