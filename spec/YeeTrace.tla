------------------------------ MODULE YeeTrace ------------------------------
(* One field step of the real solver.  e0,h0,j: integers before; e1: E after, *)
(* hd: change of H, hm: 2*(H shown) - H before - H after, all times 1000;      *)
(* s: absorption sigma*dt/(2 eps0) times 1000 (all zero without layers).       *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS NR, NZ, ZF
VARIABLES n, phase
INSTANCE Yee
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
tvars == <<n, phase, l, g>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED <<n, phase>>
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
TInit == l = 1 /\ n = 0 /\ phase = 0 /\ g = [nr |-> 1, nz |-> 1, zf |-> 1]
World == Is("world") /\ g' = [nr |-> E.nr, nz |-> E.nz, zf |-> E.zf]
\* absorbing layers: nothing outside, up to sigma_2 at the wall, never less towards the wall; the innermost
\* cell of the right and outer layers may be left out (its absorption is sigma_2 over the depth squared).
\* E.v: sigma in 1e-4 of sigma_2, E.lay: cells of the left, right, outer layer; E.one: sigma_1 likewise
B(x) == IF x THEN 1 ELSE 0
InLay(i, k)   == B(k < E.lay[1]) + B(k >= g.nz - E.lay[2]) + B(i >= g.nr - E.lay[3])
SureLay(i, k) == B(k < E.lay[1]) + B(k > g.nz - E.lay[2]) + B(i > g.nr - E.lay[3])
Layers == Is("layers") /\ UNCHANGED g /\ \A i \in 0..(g.nr - 1), k \in 0..(g.nz - 1) :
  LET v == E.v[i + 1][k + 1]  m == SureLay(i, k)
      at(a, b) == E.v[a + 1][b + 1] IN
  Say(/\ v >= m * E.one /\ (m > 0 => v > 0) /\ v <= InLay(i, k) * 10000 + 1
      /\ (k + 1 < E.lay[1] /\ k + 1 < g.nz - E.lay[2] => v >= at(i, k + 1))
      /\ (k > g.nz - E.lay[2] /\ k - 1 >= E.lay[1] => v >= at(i, k - 1))
      /\ (i > g.nr - E.lay[3] => v >= at(i - 1, k))
      /\ (E.lay[1] > 0 /\ k = 0 => v >= 9999) /\ (E.lay[2] > 1 /\ k = g.nz - 1 => v >= 9999) /\ (E.lay[3] > 1 /\ i = g.nr - 1 => v >= 9999),
      <<"absorbing layer", i, k, v>>)
EStep(i, k, c) == LET e1 == Get(E.e1, c, g.nr, g.nz, i, k)  e0 == Get(E.e0, c, g.nr, g.nz, i, k)
                      s == E.s[i + 1][k + 1]  m == MulE(c, i)
                      rot == (10000 * CurlH(E.h0, c, g.nr, g.nz, g.zf, i, k)) \div m       \* divided here: products stay below 2^31 far from the axis
                      want == (100 * (10 * (1000 - s) * e0 + rot - 10000 * Get(E.j, c, g.nr, g.nz, i, k))) \div (1000 + s) IN
  IF ~Inside(c, g.nr, g.nz, i, k) THEN Say(e1 = 0, <<"field on or behind the metal", c, i, k, e1>>)
  ELSE Say(Abs(e1 - want) <= 1 + (IF s = 0 THEN 0 ELSE 1 + (Abs(e1) \div 1000) + Abs(e0)), <<"E", c, i, k, e1, want>>)
HStep(i, k, c) == LET m == MulH(c, i)  hd == Get(E.hd, c, g.nr, g.nz, i, k) IN
  /\ Say(Abs(m * hd - MCurlE(E.e1, c, g.nr, g.nz, g.zf, i, k)) <= 3 * m + 3, <<"H", c, i, k, m * hd, MCurlE(E.e1, c, g.nr, g.nz, g.zf, i, k)>>)
  /\ Say(Abs(Get(E.hm, c, g.nr, g.nz, i, k)) <= 2, <<"H is not shown at the middle", c, i, k>>)
Step == Is("step") /\ UNCHANGED g /\ IF \A c \in 1..3, i \in 0..(g.nr - 1), k \in 0..(g.nz - 1) : EStep(i, k, c) /\ HStep(i, k, c) THEN TRUE ELSE FALSE
\* a closed box left to itself for long: no magnetic charge, no growth; E.en: energy of each step in 1e-4 of the first
Free == Is("free") /\ UNCHANGED g
  /\ Say(E.div <= 1, <<"magnetic charge appeared", E.div>>)
  /\ Say(E.gauss <= 1, <<"electric charge appeared", E.gauss>>)
  /\ \A k \in 1..Len(E.en) : Say(IF E.lossy THEN k = 1 \/ E.en[k] <= E.en[k - 1] + 1 ELSE E.en[k] \in 9999..10001, <<"energy", k, E.en[k]>>)
  /\ Say(E.must => E.en[Len(E.en)] < E.en[1], <<"nothing absorbed">>)
TNext == World \/ Layers \/ Step \/ Free
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
