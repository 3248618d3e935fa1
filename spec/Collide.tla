------------------------------ MODULE Collide ------------------------------
(* Collisions of the particles of one cell in one step: which particles meet, and what they exchange.
   The electrons and the ions of the cell meet pairwise among themselves, then electrons meet ions: every particle
   of the larger kind once, and every one of the smaller kind as evenly as the numbers allow.  A meeting hands
   momentum from one of the two to the other. *)
EXTENDS Integers, Sequences
CONSTANTS NE, NI, KICK
VARIABLES ne, ni, mom, todo, met
vars == <<ne, ni, mom, todo, met>>
Like(s, n) == LET p(a, b) == <<<<s, a>>, <<s, b>>>> IN
   IF n % 2 = 0 THEN [k \in 1..n \div 2 |-> p(2 * k - 1, 2 * k)]
   ELSE IF n = 1 THEN <<>>
   ELSE <<p(1, 2), p(2, 3), p(3, 1)>> \o [k \in 1..(n - 3) \div 2 |-> p(2 * k + 2, 2 * k + 3)]
\* the partner in the smaller group (s of them) of the k-th of the larger group (b of them)
Partner(b, s, k) == LET c == b \div s  r == b % s IN
   IF k <= (c + 1) * r THEN (k - 1) \div (c + 1) + 1 ELSE r + (k - 1 - (c + 1) * r) \div c + 1
Unlike(n, m) == IF n >= m THEN [k \in 1..n |-> <<<<"e", k>>, <<"i", Partner(n, m, k)>>>>]
                ELSE [k \in 1..m |-> <<<<"e", Partner(m, n, k)>>, <<"i", k>>>>]
Meetings(n, m) == IF n = 0 \/ m = 0 THEN <<>> ELSE Like("e", n) \o Like("i", m) \o Unlike(n, m)
Parts == {<<"e", k>> : k \in 1..ne} \cup {<<"i", k>> : k \in 1..ni}
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Start(p) == IF p[1] = "e" THEN 7 * p[2] ELSE -5 * p[2]
Init == /\ ne \in 0..NE /\ ni \in 0..NI
        /\ mom = [p \in Parts |-> Start(p)] /\ met = [p \in Parts |-> 0]
        /\ todo = Meetings(ne, ni)
Meet == /\ todo # <<>> /\ todo' = Tail(todo)
        /\ LET a == Head(todo)[1]  b == Head(todo)[2] IN
           /\ \E d \in KICK : mom' = [mom EXCEPT ![a] = @ + d, ![b] = @ - d]
           /\ met' = [met EXCEPT ![a] = @ + 1, ![b] = @ + 1]
        /\ UNCHANGED <<ne, ni>>
Spec == Init /\ [][Meet]_vars
\* ---- properties
Inside == \A k \in DOMAIN todo : {todo[k][1], todo[k][2]} \subseteq Parts /\ todo[k][1] # todo[k][2]
Kept == SumOf(mom, Parts) = SumOf([p \in Parts |-> Start(p)], Parts)
Own(s, n, k) == IF n = 1 THEN 0 ELSE IF n % 2 = 0 \/ k > 3 THEN 1 ELSE 2
Other(n, m, k) == IF n >= m THEN {1} ELSE {m \div n, m \div n + (IF m % n = 0 THEN 0 ELSE 1)}
Everyone == todo = <<>> /\ ne > 0 /\ ni > 0 =>
   /\ \A k \in 1..ne : met[<<"e", k>>] - Own("e", ne, k) \in Other(ne, ni, k)
   /\ \A k \in 1..ni : met[<<"i", k>>] - Own("i", ni, k) \in Other(ni, ne, k)
Alone == ne + ni = 1 => mom = [p \in Parts |-> Start(p)]
\* what a cell looks like from outside: who was changed at least
TakesPart(n, m) == n > 0 /\ m > 0
MayChange(n, m) == n + m > 1
============================================================================
