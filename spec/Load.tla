-------------------------------- MODULE Load --------------------------------
(* Initial loading of plasma.  Positions in half cells.  A domain of cells     *)
(* [bot, top) x [left, right) loads its particles half a cell further out and  *)
(* forward, because a particle reaches half a cell around itself; the last     *)
(* row and column are one cell shorter.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MAXR, MAXZ

\* span of positions of a domain along one axis: from cell a to cell b (border cell n is the wall), in half cells
Lo(a) == 2 * a + 1
Hi(b, n) == IF b = n THEN 2 * n - 1 ELSE 2 * b + 1
\* cells of plasma that a domain loads along z
Cells(a, b, n) == IF b = n THEN b - a - 1 ELSE b - a
\* cross-section of its plasma in pi dr^2
Area(a, b, n) == LET t == IF b = n THEN b - 1 ELSE b IN t * t - a * a
\* real particles of a domain, in (density at the left) * pi dr^2 dz, times 2 nz, with the density growing g-fold from left to right
Real2(bot, top, left, right, nr, nz, g) == (2 * nz + (g - 1) * (left + right)) * Area(bot, top, nr) * Cells(left, right, nz)

VARIABLES nr, nz, rd, zd
lvars == <<nr, nz, rd, zd>>
LInit == /\ nr \in 2..MAXR /\ nz \in 2..MAXZ /\ rd \in {d \in 1..nr : nr % d = 0 /\ nr \div d >= 2} /\ zd \in {d \in 1..nz : nz % d = 0 /\ nz \div d >= 2}
LSpec == LInit /\ [][UNCHANGED lvars]_lvars
R(i) == i * (nr \div rd)
Z(j) == j * (nz \div zd)
\* every place between the mirrors is loaded by one domain: the spans follow each other without a gap
Contiguous == /\ Lo(0) = 1 /\ Hi(nr, nr) = 2 * nr - 1 /\ \A i \in 1..(rd - 1) : Hi(R(i), nr) = Lo(R(i))
              /\ \A j \in 1..(zd - 1) : Hi(Z(j), nz) = Lo(Z(j))
              /\ \A i \in 1..rd : Lo(R(i - 1)) < Hi(R(i), nr)
RECURSIVE Total(_, _)
Total(i, j) == IF i = 0 THEN 0 ELSE IF j = 0 THEN Total(i - 1, zd) ELSE Real2(R(i - 1), R(i), Z(j - 1), Z(j), nr, nz, 1) + Total(i, j - 1)
\* the same amount of plasma, however the area is cut
SameTotal == Total(rd, zd) = 2 * nz * Area(0, nr, nr) * Cells(0, nz, nz)
=============================================================================
