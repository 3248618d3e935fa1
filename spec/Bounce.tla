------------------------------- MODULE Bounce -------------------------------
(* The walls.  Plasma particles are mirrored by planes half a cell inside the *)
(* boundary of the area (on the axis, the outer wall and the two ends); only  *)
(* the domains at that boundary have them.  Beam particles are mirrored by    *)
(* the axis only and leave through the other sides.                           *)
(* Positions are in 1/u of a cell, per particle <<r, z>>; u is even.          *)
EXTENDS Geom
CONSTANTS NR, NZ, RD, ZD, U, MaxSteps, VMAX

Low(g) == g.u \div 2                          \* mirror planes, in 1/u of a cell
HighR(g) == g.nr * g.u - g.u \div 2
HighZ(g) == g.nz * g.u - g.u \div 2
WallAxis(g, d) == d[1] = 0
WallOut(g, d)  == d[1] = g.rd - 1
WallLeft(g, d) == d[2] = 0
WallRight(g, d) == d[2] = g.zd - 1

\* one coordinate between two optional mirrors: <<position, sign>>
RECURSIVE Mirror(_, _, _, _, _)
Mirror(x, lo, hi, haslo, hashi) ==
  IF hashi /\ x > hi THEN LET m == Mirror(2 * hi - x, lo, hi, haslo, hashi) IN <<m[1], -m[2]>>
  ELSE IF haslo /\ x < lo THEN LET m == Mirror(2 * lo - x, lo, hi, haslo, hashi) IN <<m[1], -m[2]>>
  ELSE <<x, 1>>
ReflectPlasma(g, d, p) == <<Mirror(p[1], Low(g), HighR(g), WallAxis(g, d), WallOut(g, d)),
                            Mirror(p[2], Low(g), HighZ(g), WallLeft(g, d), WallRight(g, d))>>
ReflectBeam(g, d, p) == <<Mirror(p[1], Low(g), HighR(g), WallAxis(g, d), FALSE), <<p[2], 1>>>>
Confined(g, p) == p[1] \in Low(g)..HighR(g) /\ p[2] \in Low(g)..HighZ(g)

(* ---- the machine: move at most one cell, reflect in the home domain, hand over ---- *)
G == [nr |-> NR, nz |-> NZ, rd |-> RD, zd |-> ZD, u |-> U]
VelSet == {-VMAX, -1, 0, 2, VMAX}
VARIABLES pos, vel, home, beam, steps
vars == <<pos, vel, home, beam, steps>>
Init == /\ pos \in {p \in (0..(NR * U - 1)) \X (0..(NZ * U - 1)) : Confined(G, p)}
        /\ vel \in VelSet \X VelSet /\ beam \in BOOLEAN
        /\ home = Owner(G, CellAt(G, pos)) /\ steps = 0
Abs(x) == IF x < 0 THEN -x ELSE x
Step == /\ steps < MaxSteps /\ home # NOWHERE /\ steps' = steps + 1
        /\ \E kick \in {<<0, 0>>, <<1, 0>>, <<0, -1>>} :
           LET v == <<vel[1] + kick[1], vel[2] + kick[2]>>
               q == <<pos[1] + v[1], pos[2] + v[2]>>
               m == IF beam THEN ReflectBeam(G, home, q) ELSE ReflectPlasma(G, home, q) IN
             /\ Abs(v[1]) <= U /\ Abs(v[2]) <= U
             /\ pos' = <<m[1][1], m[2][1]>> /\ vel' = <<v[1] * m[1][2], v[2] * m[2][2]>>
             /\ home' = Owner(G, CellAt(G, pos'))
        /\ UNCHANGED beam
Next == Step
Spec == Init /\ [][Next]_vars
\* a plasma particle never gets out, and never settles beyond a mirror
PlasmaConfined == ~beam => home # NOWHERE /\ Confined(G, pos)
\* a beam particle leaves through an end or the outer wall only
BeamLeaves == beam /\ home = NOWHERE => pos[1] >= NR * U \/ pos[2] >= NZ * U \/ pos[2] < 0
\* next to a mirror the particle does not move into it
SpeedKept == [][\A k \in 1..2 : Abs(Abs(vel'[k]) - Abs(vel[k])) <= 1]_vars
=============================================================================
