-------------------------------- MODULE Procs --------------------------------
(* The area split along z over N processes in a row.  A step first hands over  *)
(* the particles that left, then sums the borders of neighbours (currents,     *)
(* fields).  Both are written as the sequence of messages each process makes;  *)
(* whatever the library keeps or lets wait, nobody may wait for ever, and at   *)
(* the end both sides of each seam hold the same sum and every particle is     *)
(* held once, where it went.  ORDER "together" is what the program once did:   *)
(* everybody sends before receiving; it hangs when sends wait.                 *)
EXTENDS Mpi, TLC
CONSTANTS N, ORDER
P == 0..(N - 1)
Cond(b, s) == IF b THEN s ELSE <<>>
S(q, k) == <<[op |-> "S", q |-> q, k |-> k]>>
R(q, k) == <<[op |-> "R", q |-> q, k |-> k]>>
B == <<[op |-> "B", q |-> 0, k |-> 0]>>
Up(p) == p < N - 1
Down(p) == p > 0
Program(p) ==
  LET particles == IF ORDER = "chain"
        THEN Cond(Up(p), S(p + 1, 1)) \o Cond(Down(p), R(p - 1, 1)) \o Cond(Down(p), S(p - 1, 1)) \o Cond(Up(p), R(p + 1, 1))
        ELSE Cond(Up(p), S(p + 1, 1)) \o Cond(Down(p), S(p - 1, 1)) \o Cond(Down(p), R(p - 1, 1)) \o Cond(Up(p), R(p + 1, 1))
      borders == IF ORDER = "chain"
        THEN Cond(Up(p), S(p + 1, 2) \o R(p + 1, 2)) \o Cond(Down(p), R(p - 1, 2) \o S(p - 1, 2))
        ELSE Cond(Up(p), S(p + 1, 2) \o R(p + 1, 2)) \o Cond(Down(p), S(p - 1, 2) \o R(p - 1, 2))
  IN B \o particles \o B \o borders \o B
VARIABLES pc, box, waits, part, lo, hi
vars == <<pc, box, waits, part, lo, hi>>
\* what the borders of process p hold before the exchange; which particles leave it upwards and downwards
Lo0(p) == 4 ^ p
Hi0(p) == 2 * 4 ^ p
GoUp(p) == {<<p, "up">>}
GoDown(p) == {<<p, "down">>}
Init == /\ pc = [p \in P |-> 1] /\ box = EmptyBox(N) /\ waits = [p \in P |-> FALSE]
        /\ part = [p \in P |-> {<<p, "stays">>} \cup (IF Up(p) THEN {} ELSE GoUp(p)) \cup (IF Down(p) THEN {} ELSE GoDown(p))]
        /\ lo = [p \in P |-> Lo0(p)] /\ hi = [p \in P |-> Hi0(p)]
Op(p) == IF pc[p] <= Len(Program(p)) THEN Program(p)[pc[p]] ELSE [op |-> "end", q |-> 0, k |-> 0]
What(p, o) == IF o.k = 1 THEN (IF o.q > p THEN GoUp(p) ELSE GoDown(p)) ELSE {<<IF o.q > p THEN Hi0(p) ELSE Lo0(p)>>}
Send(p) == /\ Op(p).op = "S" /\ ~waits[p]
           /\ box' = Put(box, p, Op(p).q, What(p, Op(p)))
           /\ \/ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED waits      \* kept by the library
              \/ waits' = [waits EXCEPT ![p] = TRUE] /\ UNCHANGED pc      \* waits for its receiver
           /\ UNCHANGED <<part, lo, hi>>
Sent(p) == /\ waits[p] /\ Taken(box, p, Op(p).q) /\ waits' = [waits EXCEPT ![p] = FALSE] /\ pc' = [pc EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<box, part, lo, hi>>
Recv(p) == /\ Op(p).op = "R" /\ CanTake(box, Op(p).q, p)
           /\ LET m == Oldest(box, Op(p).q, p) o == Op(p) IN
              /\ part' = IF o.k = 1 THEN [part EXCEPT ![p] = @ \cup m] ELSE part
              /\ hi' = IF o.k = 2 /\ o.q > p THEN [hi EXCEPT ![p] = @ + (CHOOSE x \in m : TRUE)[1]] ELSE hi
              /\ lo' = IF o.k = 2 /\ o.q < p THEN [lo EXCEPT ![p] = @ + (CHOOSE x \in m : TRUE)[1]] ELSE lo
           /\ box' = Take(box, Op(p).q, p) /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED waits
Meet == (\A p \in P : Op(p).op = "B") /\ pc' = [p \in P |-> pc[p] + 1] /\ UNCHANGED <<box, waits, part, lo, hi>>
Over == \A p \in P : Op(p).op = "end"
Next == Meet \/ (\E p \in P : Send(p) \/ Sent(p) \/ Recv(p)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == Over => /\ \A p \in P : Up(p) => hi[p] = Hi0(p) + Lo0(p + 1) /\ lo[p + 1] = hi[p]
                 /\ lo[0] = Lo0(0) /\ hi[N - 1] = Hi0(N - 1)
                 /\ \A p \in P : part[p] = {<<p, "stays">>} \cup (IF Down(p) THEN GoUp(p - 1) ELSE GoDown(p)) \cup (IF Up(p) THEN GoDown(p + 1) ELSE GoUp(p))
\* nothing is left on the way
Empty == Over => box = EmptyBox(N)
Done == <>Over
=============================================================================
