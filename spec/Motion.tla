------------------------------- MODULE Motion -------------------------------
(* Motion of one particle.  In the plane across the axis the particle is a    *)
(* free body with Cartesian <<x, y>>, <<vx, vy>>; the code keeps it turned to  *)
(* the half-plane of its own angle, <<r, vr, vphi>>.  What does not depend on  *)
(* the angle:  r^2, r*vr, r*vphi (angular momentum) and the squared speed.     *)
(* Lengths are in 1/u of a cell, velocities in the same per step.              *)
EXTENDS Integers, Sequences
CONSTANTS RMAX, VMAX, STEPS
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b

\* free flight: what the half-plane picture must show n steps after <<r, z, vr, vphi, vz>>
R2(s, n)   == (s[1] + n * s[3]) * (s[1] + n * s[3]) + n * s[4] * n * s[4]
RVR(s, n)  == (s[1] + n * s[3]) * s[3] + n * s[4] * s[4]
RVPHI(s)   == s[1] * s[4]
V2(s)      == s[3] * s[3] + s[4] * s[4]
Z(s, n)    == s[2] + n * s[5]

\* the same quantities, carried from step to step without any angle
VARIABLES s0, q, n
mvars == <<s0, q, n>>
MInit == /\ n = 0 /\ s0 \in (1..RMAX) \X {0} \X (-VMAX..VMAX) \X (-VMAX..VMAX) \X {-1, 1}
         /\ q = [r2 |-> R2(s0, 0), rvr |-> RVR(s0, 0), l |-> RVPHI(s0), v2 |-> V2(s0)]
MStep == /\ n < STEPS /\ n' = n + 1 /\ UNCHANGED s0
         /\ q' = [q EXCEPT !.r2 = @ + 2 * q.rvr + q.v2, !.rvr = @ + q.v2]
MSpec == MInit /\ [][MStep]_mvars
Agree == q.r2 = R2(s0, n) /\ q.rvr = RVR(s0, n)
\* Lagrange: r^2 v^2 = (r vr)^2 + (r vphi)^2, so the rotation never changes the speed
Lagrange == q.r2 * q.v2 = q.rvr * q.rvr + q.l * q.l
NotInward == q.r2 >= 0
NeverBelowImpact == q.r2 * q.v2 >= q.l * q.l

(* ---- the Lorentz force --------------------------------------------------- *)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* u: momentum per unit mass, k: the electric kick q E dt/m (same unit), b: q mu0 H dt/2m in 1e-4,
\* g: Lorentz factor in 1e-3.  du = k + (u0 + u1) x b / g
Magnetic(u0, u1, b, g) == LET c == Cross([i \in 1..3 |-> u0[i] + u1[i]], b) IN [i \in 1..3 |-> (c[i] \div g) \div 10]
LorentzWithin(u0, u1, k, b, g, T(_, _)) ==
  LET m == Magnetic(u0, u1, b, g)
      Size(x) == Max2(Max2(Abs(x[1]), Abs(x[2])), Abs(x[3])) IN
  \A i \in 1..3 : Abs(u1[i] - u0[i] - k[i] - m[i]) <= T(Size(k), Size(m))
Lorentz(u0, u1, k, b, g) == LorentzWithin(u0, u1, k, b, g, LAMBDA x, y : 3 + Max2(x, y) \div 30)
\* a strong kick: g is the factor in the middle of the step, the kick itself is exact
Kicked(u0, u1, k, b, g) == LorentzWithin(u0, u1, k, b, g, LAMBDA x, y : 3 + y \div 30 + x \div 1000)
=============================================================================
