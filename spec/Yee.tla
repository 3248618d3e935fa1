-------------------------------- MODULE Yee --------------------------------
(* Fields on the staggered grid in a metal box with the axis as one side.     *)
(* Component nodes: Er (i+1/2,k)  Ephi (i,k)  Ez (i,k+1/2)                     *)
(*                  Hr (i,k+1/2)  Hphi (i+1/2,k+1/2)  Hz (i+1/2,k)             *)
(* A field is a sequence of three matrices [i][k], indices from 0.            *)
(* E grows by dt/eps0 (curl H - J) over the step, then H falls by dt/mu0 curl E *)
(* with the new E; here in units that make the coefficients 1; cells are zf     *)
(* times shorter along z than along r.                                        *)
EXTENDS Integers, Sequences
CONSTANTS NR, NZ, ZF
Abs(x) == IF x < 0 THEN -x ELSE x
Get(F, c, nr, nz, i, k) == IF i \in 0..(nr - 1) /\ k \in 0..(nz - 1) THEN F[c][i + 1][k + 1] ELSE 0

\* which nodes of E are inside the metal (the walls themselves are the last nodes; E along a wall is zero)
Inside(c, nr, nz, i, k) ==
  CASE c = 1 -> i \in 0..(nr - 2) /\ k \in 1..(nz - 2)
    [] c = 2 -> i \in 1..(nr - 2) /\ k \in 1..(nz - 2)
    [] c = 3 -> i \in 0..(nr - 2) /\ k \in 0..(nz - 2)

\* curl H times Mul (the volume factor that makes it an integer)
MulE(c, i) == IF c = 3 /\ i > 0 THEN 2 * i ELSE 1
CurlH(H, c, nr, nz, zf, i, k) == LET h(d, a, b) == Get(H, d, nr, nz, a, b) IN
  CASE c = 1 -> -zf * (h(2, i, k) - h(2, i, k - 1))
    [] c = 2 -> zf * (h(1, i, k) - h(1, i, k - 1)) - (h(3, i, k) - h(3, i - 1, k))
    [] c = 3 -> IF i = 0 THEN 4 * h(2, 0, k) ELSE (2 * i + 1) * h(2, i, k) - (2 * i - 1) * h(2, i - 1, k)
MulH(c, i) == IF c = 3 THEN 2 * i + 1 ELSE 1
\* minus curl E times MulH
MCurlE(E, c, nr, nz, zf, i, k) == LET e(d, a, b) == Get(E, d, nr, nz, a, b) IN
  CASE c = 1 -> zf * (e(2, i, k + 1) - e(2, i, k))
    [] c = 2 -> (e(3, i + 1, k) - e(3, i, k)) - zf * (e(1, i, k + 1) - e(1, i, k))
    [] c = 3 -> -((2 * i + 2) * e(2, i + 1, k) - 2 * i * e(2, i, k))

(* ---- the solver's own laws, over every field carried by one node (the operators are linear) ---- *)
VARIABLES n, phase
yvars == <<n, phase>>
Fld(x) == [c \in 1..3 |-> [i \in 1..NR |-> [k \in 1..NZ |-> IF c = x[1] /\ i = x[2] + 1 /\ k = x[3] + 1 THEN 1 ELSE 0]]]
YInit == n \in (1..3) \X (0..(NR - 1)) \X (0..(NZ - 1)) /\ phase = "start"
YStep == phase = "start" /\ phase' = "done" /\ UNCHANGED n
YSpec == YInit /\ [][YStep]_yvars
\* no magnetic charge appears: flux of the change of H out of the cell (i+1/2, k+1/2), times 2i+1
NoMonopole == \A i \in 0..(NR - 2), k \in 0..(NZ - 2) : LET d(c, a, b) == MCurlE(Fld(n), c, NR, NZ, ZF, a, b) IN
   2 * ((i + 1) * d(1, i + 1, k) - i * d(1, i, k)) + ZF * (d(3, i, k + 1) - d(3, i, k)) = 0
\* curl H brings no charge: flux of the change of E out of the node (i, k) inside the metal
NoCharge == \A i \in 0..(NR - 2), k \in 1..(NZ - 2) : LET d(c, a, b) == CurlH(Fld(n), c, NR, NZ, ZF, a, b) IN
   IF i = 0 THEN 4 * d(1, 0, k) + ZF * (d(3, 0, k) - d(3, 0, k - 1)) = 0
   ELSE (2 * i + 1) * d(1, i, k) - (2 * i - 1) * d(1, i - 1, k) + ZF * (d(3, i, k) - d(3, i, k - 1)) = 0
\* only neighbours feel a node within one step
Near == \A c \in 1..3, i \in 0..(NR - 1), k \in 0..(NZ - 1) :
   (Abs(i - n[2]) > 1 \/ Abs(k - n[3]) > 1) => CurlH(Fld(n), c, NR, NZ, ZF, i, k) = 0 /\ MCurlE(Fld(n), c, NR, NZ, ZF, i, k) = 0
=============================================================================
