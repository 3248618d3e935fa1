------------------------------- MODULE Charge -------------------------------
(* Charge of particles lives on the nodes of the grid.  A moving particle     *)
(* sends charge through the faces between nodes; after any motion every node  *)
(* holds exactly what the shape of the particles at their new positions gives *)
(* it (continuity equation).  Positions are in 1/u of a cell.  Two shapes:    *)
(* "ring" (volumes of cylindrical rings) and "linear".                        *)
EXTENDS Integers, Sequences, FiniteSets
S == 100000                        \* unit charge
Abs(x) == IF x < 0 THEN -x ELSE x
\* part of a unit charge at position p (in 1/u) that belongs to node i along r, resp. along z
RingR(p, u, i) == LET c == p \div u  a == (2 * c + 1) * u  b == 2 * p - u
                      lo == ((S \div 2) * (((a - b) * (a + b)) \div 4)) \div (p * u) IN
                  IF i = c THEN lo ELSE IF i = c + 1 THEN S - lo ELSE 0
Lin(p, u, i) == LET c == p \div u IN IF i = c THEN (S * (u - (p - c * u))) \div u ELSE IF i = c + 1 THEN (S * (p - c * u)) \div u ELSE 0
ShareR(mode, p, u, i) == IF mode = "ring" THEN RingR(p, u, i) ELSE Lin(p, u, i)
ZPart(x, p, u, k) == LET c == p \div u IN IF k = c THEN (x * (u - (p - c * u))) \div u ELSE IF k = c + 1 THEN (x * (p - c * u)) \div u ELSE 0
Share(mode, pos, u, n) == ZPart(ShareR(mode, pos[1], u, n[1]), pos[2], u, n[2])

(* ---- the machine: linear shape, unit steps on the lattice; charge is only changed by what crosses faces ---- *)
CONSTANTS N, U, STEPS             \* nodes 0..N per direction, 1/U lattice
VARIABLES pos, node, t
vars == <<pos, node, t>>
Q2 == 2 * U * U                    \* charge unit that keeps half-steps integer
W(p, n) == LET a == p[1] - n[1] * U  b == p[2] - n[2] * U IN IF Abs(a) >= U \/ Abs(b) >= U THEN 0 ELSE 2 * (U - Abs(a)) * (U - Abs(b))
Nodes == (0..N) \X (0..N)
Init == pos \in (0..(N * U)) \X (0..(N * U)) /\ node = [n \in Nodes |-> W(pos, n)] /\ t = 0
\* a unit step lies inside one cell: flux through the faces of this cell
Fr(p, q, i, k) == LET b == (p[2] + q[2]) - 2 * k * U IN IF Abs(b) >= 2 * U THEN 0 ELSE (q[1] - p[1]) * (2 * U - Abs(b))
Fz(p, q, i, k) == LET a == (p[1] + q[1]) - 2 * i * U IN IF Abs(a) >= 2 * U THEN 0 ELSE (q[2] - p[2]) * (2 * U - Abs(a))
CellR(p, q) == (IF p[1] < q[1] THEN p[1] ELSE q[1]) \div U
CellZ(p, q) == (IF p[2] < q[2] THEN p[2] ELSE q[2]) \div U
OutR(p, q, n) == (IF n[1] = CellR(p, q) THEN Fr(p, q, n[1], n[2]) ELSE 0) - (IF n[1] - 1 = CellR(p, q) THEN Fr(p, q, n[1] - 1, n[2]) ELSE 0)
OutZ(p, q, n) == (IF n[2] = CellZ(p, q) THEN Fz(p, q, n[1], n[2]) ELSE 0) - (IF n[2] - 1 = CellZ(p, q) THEN Fz(p, q, n[1], n[2] - 1) ELSE 0)
Step == /\ t < STEPS /\ t' = t + 1
        /\ \E dx \in {-1, 0, 1}, dy \in {-1, 0, 1} : LET q == <<pos[1] + dx, pos[2] + dy>> IN
             /\ q[1] \in 0..(N * U) /\ q[2] \in 0..(N * U) /\ pos' = q
             /\ node' = [n \in Nodes |-> node[n] - OutR(pos, q, n) - OutZ(pos, q, n)]
Spec == Init /\ [][Step]_vars
Continuity == \A n \in Nodes : node[n] = W(pos, n)
=============================================================================
