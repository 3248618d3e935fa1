---------------------------- MODULE MomentsTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS N, U, STEPS
VARIABLES pos, node, t
INSTANCE Moments
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, u, nr, nz, rel
tvars == <<pos, node, t, l, u, nr, nz, rel>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Idle == UNCHANGED <<pos, node, t>>
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
TInit == l = 1 /\ u = 1 /\ nr = 0 /\ nz = 0 /\ rel = FALSE /\ pos = 0 /\ node = 0 /\ t = 0
World == Is("world") /\ u' = E.u /\ nr' = E.nr /\ nz' = E.nz /\ rel' = E.rel /\ Idle
D(n) == Density(E.parts, E.specie, u, n)
M(n, f(_)) == Mean10(E.parts, E.specie, u, n, f)
Got(n) == E.v[n[1] + 1][n[2] + 1]
Col(c) == IF c = "momentum/r" THEN 5 ELSE IF c = "momentum/phi" THEN 6 ELSE 7
Wt == SumQ([x \in 1..Len(E.parts) |-> E.parts[x][4]], 1)
\* cells where the sums are too small for integer arithmetic are only checked to be finite
Enough(n) == D(n) >= 20000
Here(n) == <<E.comp, "specie", E.specie, "step", E.t, "cell", n, "shows", Got(n)>>
DensityOK(n) == Say(Abs(Got(n) - D(n)) <= 6 + 8 * Wt, <<Here(n), "expected", D(n)>>)
MomentumOK(n) == Enough(n) => LET d == D(n) \div 10  x == M(n, LAMBDA p : p[Col(E.comp)]) IN
   Say(Abs(Got(n) * d - 1000 * x) <= 25 * d, <<Here(n), "expected", (1000 * x) \div d>>)
A100(n) == (100 * M(n, LAMBDA p : Speed(p))) \div (D(n) \div 10)
B100(n, i) == (100 * M(n, LAMBDA p : p[i])) \div (D(n) \div 10)
EnergyOK(n) == Enough(n) => LET x == Sq(A100(n)) \div 100 IN Say(Abs(Got(n) - x) <= 40, <<Here(n), "expected", x>>)
TempOK(n) == Enough(n) => LET x == (Sq(A100(n)) - Sq(B100(n, 5)) - Sq(B100(n, 6)) - Sq(B100(n, 7))) \div 100 IN Say(Abs(Got(n) - x) <= 80, <<Here(n), "expected", x>>)
\* fast particles: <<specie, r, z, weight, n, d, g, a, b, c, e>> of speed n/d c along (a, b, c)/e; n^2 + g^2 = d^2, so that gamma = d/g
\* momenta and energies in MC-ths of mc and mc^2
MC == 4000
Well(p) == Sq(p[5]) + Sq(p[7]) = Sq(p[6]) /\ Sq(p[8]) + Sq(p[9]) + Sq(p[10]) = Sq(p[11])
Momentum(p, i) == IF i = 0 THEN (MC * p[5]) \div p[7] ELSE ((MC * p[5] * Abs(p[i])) \div (p[7] * p[11])) * (IF p[i] < 0 THEN -1 ELSE 1)
Over10(n, f(_)) == SumQ([x \in 1..Len(E.parts) |-> IF E.parts[x][1] = E.specie THEN f(E.parts[x]) * E.parts[x][4] * (Share("ring", <<E.parts[x][2], E.parts[x][3]>>, u, n) \div 10) ELSE 0], 1)
Mean(n, i) == LET x == Over10(n, LAMBDA p : Momentum(p, i))  d == Over10(n, LAMBDA p : 1) IN (IF x < 0 THEN -1 ELSE 1) * (Abs(x) \div d)
One == \A x \in 2..Len(E.parts) : \A i \in 5..11 : E.parts[x][i] = E.parts[1][i]
Tol == IF One THEN 4 ELSE 24
\* energy G of the momentum squared x: (G + MC)^2 = MC^2 + x
Fits(g, x, tol) == Abs(Sq(g + MC) - Sq(MC) - x) <= tol
Wide(g, tol) == 2 * (MC + Abs(g)) * tol
RelOK(n) == (IF One THEN Enough(n) ELSE D(n) >= 100000) => CASE
     E.comp = "density" -> DensityOK(n)
  [] E.comp = "energy" -> Say(Fits(Got(n), Sq(Mean(n, 0)), IF One THEN 4 * Mean(n, 0) + Wide(Got(n), 1) ELSE Wide(Got(n), Tol)), <<Here(n), "expected of momentum", Mean(n, 0)>>)
  [] E.comp = "temperature" -> LET x == Sq(Mean(n, 0)) - Sq(Mean(n, 8)) - Sq(Mean(n, 9)) - Sq(Mean(n, 10)) IN Say(Fits(Got(n), x, Wide(Got(n), 3 * Tol)), <<Here(n), "expected of momentum squared", x>>)
  [] OTHER -> LET x == Mean(n, Col(E.comp) + 3) IN Say(Abs(Got(n) - x) <= Tol, <<Here(n), "expected", x>>)
Frame == /\ Is("frame") /\ Idle /\ UNCHANGED <<u, nr, nz, rel>>
         /\ Say(E.ok, <<E.comp, E.specie, "frame is missing or not finite">>)
         /\ rel => \A x \in 1..Len(E.parts) : Well(E.parts[x])
         /\ \A n \in (0..(nr - 1)) \X (0..(nz - 1)) :
              IF rel THEN RelOK(n)
              ELSE CASE E.comp = "density" -> DensityOK(n) [] E.comp = "energy" -> EnergyOK(n) [] E.comp = "temperature" -> TempOK(n) [] OTHER -> MomentumOK(n)
TNext == World \/ Frame
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
