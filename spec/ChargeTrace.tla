----------------------------- MODULE ChargeTrace -----------------------------
(* Currents the real code deposited for given motions, as charge through faces *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS N, U, STEPS
VARIABLES pos, node, t
INSTANCE Charge
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mode, u, nr, nz
tvars == <<pos, node, t, l, mode, u, nr, nz>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Idle == UNCHANGED <<pos, node, t>>
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
TInit == l = 1 /\ mode = "" /\ u = 1 /\ nr = 0 /\ nz = 0 /\ pos = 0 /\ node = 0 /\ t = 0
World == Is("world") /\ mode' = E.mode /\ u' = E.u /\ nr' = E.nr /\ nz' = E.nz /\ Idle
Sgn(p) == IF p[1] = 0 THEN -1 ELSE 1          \* specie 0: electrons, 1: positive ions
RECURSIVE SumS(_, _)
SumS(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumS(s, i + 1)
SumP(f(_)) == SumS([x \in 1..Len(E.paths) |-> f(E.paths[x])], 1)
Change(n) == SumP(LAMBDA p : Sgn(p) * p[6] * (Share(mode, <<p[4], p[5]>>, u, n) - Share(mode, <<p[2], p[3]>>, u, n)))
Weight == SumP(LAMBDA p : p[6])
Val(f, i, k) == LET h == {x \in 1..Len(f) : f[x][1] = <<i, k>>} IN IF h = {} THEN 0 ELSE f[CHOOSE x \in h : TRUE][2]
Out(n) == Val(E.fr, n[1], n[2]) - Val(E.fr, n[1] - 1, n[2]) + Val(E.fz, n[1], n[2]) - Val(E.fz, n[1], n[2] - 1)
Near == {<<a, b>> : a \in 0..(nr - 1), b \in 0..(nz - 1)}
Touched == {n \in Near : \/ \E x \in 1..Len(E.fr) : n[2] = E.fr[x][1][2] /\ n[1] - E.fr[x][1][1] \in {0, 1}
                         \/ \E x \in 1..Len(E.fz) : n[1] = E.fz[x][1][1] /\ n[2] - E.fz[x][1][2] \in {0, 1}
                         \/ \E x \in 1..Len(E.paths) : LET p == E.paths[x] IN
                              \/ n[1] - (p[2] \div u) \in {0, 1} /\ n[2] - (p[3] \div u) \in {0, 1}
                              \/ n[1] - (p[4] \div u) \in {0, 1} /\ n[2] - (p[5] \div u) \in {0, 1}}
Inner == \A x \in 1..Len(E.paths) : E.paths[x][4] < (nr - 1) * u /\ E.paths[x][5] < (nz - 1) * u
Phi == SumP(LAMBDA p : Sgn(p) * p[6] * p[7])
Tol == 6 + 6 * Weight
Max2(a, b) == IF a > b THEN a ELSE b
\* cells a motion goes through: straight, or (zigzag) only those where it starts and ends
Cells(p) == LET i0 == p[2] \div u  k0 == p[3] \div u  i1 == p[4] \div u  k1 == p[5] \div u
                tr == Abs(Max2(i0, i1) * u - p[2]) * Abs(p[5] - p[3])  tz == Abs(Max2(k0, k1) * u - p[3]) * Abs(p[4] - p[2]) IN
  {<<i0, k0>>, <<i1, k1>>} \cup IF mode # "ring" \/ i0 = i1 \/ k0 = k1 \/ tr = tz THEN {} ELSE {IF tr < tz THEN <<i1, k0>> ELSE <<i0, k1>>}
Way == UNION {Cells(E.paths[x]) : x \in 1..Len(E.paths)}
OnWay(f, beside) == \A x \in 1..Len(f) : LET a == f[x][1] IN
   IF Abs(f[x][2]) <= Tol \/ a \in Way THEN TRUE ELSE Say(<<a[1] - beside[1], a[2] - beside[2]>> \in Way, <<"current aside of the way, at", a, "of", f[x][2]>>)
Move == /\ Is("move") /\ Idle /\ UNCHANGED <<mode, u, nr, nz>>
        /\ Say(E.finite, "a current is not finite")
        /\ \A n \in Touched : LET d == Change(n) + Out(n) IN
              Say(Abs(d) <= Tol, <<"charge is not conserved at node", n, "by 1e-5 of", d>>)
        /\ (mode = "ring" \/ \A x \in 1..Len(E.paths), y \in 8..11 : E.paths[x][y] = 0) => OnWay(E.fr, <<0, 1>>) /\ OnWay(E.fz, <<1, 0>>)
        /\ Inner => Say(Abs(E.phi - S * Phi) <= 20 * (1 + Weight), <<"azimuthal current", E.phi, "expected", S * Phi>>)
TNext == World \/ Move
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
