----------------------------- MODULE MotionTrace -----------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS RMAX, VMAX, STEPS
VARIABLES s0, q, n
INSTANCE Motion
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
tvars == <<s0, q, n, l>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED <<s0, q, n>>
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
Near(a, b, t) == Abs(a - b) <= t
TInit == l = 1 /\ s0 = 0 /\ q = 0 /\ n = 0
World == Is("world")
\* a uniform field is felt as it is, in its own component only (1e-6)
Uniform == Is("uniform") /\ \A i \in 1..Len(E.v) : \A c \in 1..6 :
   Say(Near(E.v[i][c], IF c = E.comp THEN 1000000 ELSE 0, 1), <<"uniform field", E.comp, E.at[i], E.v[i]>>)
\* a field that grows with z at its own nodes as z itself is felt as z: positions in 1/u of a cell
Linear == Is("linear") /\ \A i \in 1..Len(E.v) : Say(Near(E.v[i], 1000 * E.at[i][2], 2), <<"linear field", E.comp, E.at[i], E.v[i]>>)
\* where the nodes of a component are: offset by half a cell in <<r, z>>
OffR(c) == c \in {1, 5, 6}
OffZ(c) == c \in {3, 4, 5}
\* one node carries the field: it is felt within a cell of the node only, between nothing and the whole
Unit == Is("unit") /\ LET nr == E.node[1] * E.u + (IF OffR(E.comp) THEN E.u \div 2 ELSE 0)
                          nz == E.node[2] * E.u + (IF OffZ(E.comp) THEN E.u \div 2 ELSE 0) IN
   \A i \in 1..Len(E.v) : \A c \in 1..6 :
     LET far == Abs(E.at[i][1] - nr) >= E.u \/ Abs(E.at[i][2] - nz) >= E.u
         on  == E.at[i][2] = nz /\ E.at[i][1] = nr
         x == E.v[i][c] IN
     Say(IF c # E.comp \/ far THEN x = 0
         ELSE x >= 0 /\ x <= 1000000 /\ (on => x = 1000000) /\ (Abs(E.at[i][1] - nr) < E.u - 1 /\ E.at[i][1] > E.u => x > 0)
              \* weights fall with the distance along z in proportion
              /\ x <= 1 + (1000000 \div E.u) * (E.u - Abs(E.at[i][2] - nz)), <<"unit field", E.comp, E.node, E.at[i], E.v[i]>>)
\* a whole step without fields, from E.from, observed after n = 1..
Flight == Is("flight") /\ \A i \in 1..Len(E.from) : \A k \in 1..Len(E.seen[i]) :
   LET s == E.from[i]  o == E.seen[i][k] IN
   Say(/\ Near(o[1], 100 * R2(s, k), 1) /\ Near(o[2], 100 * RVR(s, k), 1) /\ Near(o[3], 100 * RVPHI(s), 1)
       /\ Near(o[4], 100 * V2(s), 1) /\ Near(o[5], 100 * Z(s, k), 1) /\ o[6] = 100 * s[5],
       <<"free flight", s, k, o>>)
\* velocity change of one push
Push == Is("push") /\ \A i \in 1..Len(E.v) : LET p == E.v[i] IN
   Say(Lorentz(p.u0, p.u1, p.k, p.b, p.g), <<"Lorentz force", p>>)
Kick == Is("kick") /\ \A i \in 1..Len(E.v) : LET p == E.v[i] IN
   Say(Kicked(p.u0, p.u1, p.k, p.b, p.g), <<"Lorentz force with a strong kick", p>>)
\* no electric field: speed and the velocity along H are kept (1e-9 of the speed), for any strength
Gyro == Is("gyro") /\ \A i \in 1..Len(E.v) : Say(Abs(E.v[i][1]) <= 5 /\ Abs(E.v[i][2]) <= 5, <<"magnetic field does work", E.at[i], E.v[i]>>)
\* no magnetic field: the momentum grows by the kick exactly (1e-6 of it)
Accel == Is("accel") /\ \A i \in 1..Len(E.v) : Say(\A c \in 1..3 : Near(E.v[i][c], 1000000 * E.dir[i][c], E.tol), <<"electric kick", E.dir[i], E.v[i]>>)
\* many steps in a uniform axial field: the centre of gyration stays at its distance from the axis
\* E.v: <<r *10, vr *1000, vphi *1000>>; E.w: signed steps per radian
\* The step that led here was taken along v, so its middle is half a step back.
CX(p) == p[1] + (2 * E.w * p[3] - p[2]) \div 200
CY(p) == -((2 * E.w * p[2] + p[3]) \div 200)
Dist2(p) == CX(p) * CX(p) + CY(p) * CY(p)
Orbit == Is("orbit") /\ \A k \in 1..Len(E.v) : Say(Near(Dist2(E.v[k]), Dist2(E.v[1]), E.tol), <<"orbit", k, E.v[k], Dist2(E.v[k]), Dist2(E.v[1])>>)
TNext == World \/ Uniform \/ Linear \/ Unit \/ Flight \/ Push \/ Kick \/ Gyro \/ Accel \/ Orbit
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
