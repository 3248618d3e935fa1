------------------------------ MODULE Moments ------------------------------
(* What the probes of particle moments must show.  Shapes of particles come   *)
(* from Charge; sums are over all particles of the specie, wherever the       *)
(* borders of the domains are, and are normalised only after they are complete *)
EXTENDS Charge
RECURSIVE SumQ(_, _)
SumQ(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumQ(s, i + 1)
\* a particle: <<specie, r, z, weight, vr, vphi, vz>>
Sq(x) == x * x
RECURSIVE Root(_, _)
Root(n, k) == IF k * k >= n THEN k ELSE Root(n, k + 1)          \* speeds are chosen to be integers
Speed(p) == Root(Sq(p[5]) + Sq(p[6]) + Sq(p[7]), 0)
Over(ps, sp, uu, n, f(_)) == SumQ([x \in 1..Len(ps) |-> IF ps[x][1] = sp THEN f(ps[x]) * ps[x][4] * Share("ring", <<ps[x][2], ps[x][3]>>, uu, n) ELSE 0], 1)
Density(ps, sp, uu, n) == Over(ps, sp, uu, n, LAMBDA p : 1)
Mean10(ps, sp, uu, n, f(_)) == Over(ps, sp, uu, n, f) \div 10
=============================================================================
