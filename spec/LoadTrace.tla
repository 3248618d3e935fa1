------------------------------ MODULE LoadTrace ------------------------------
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS MAXR, MAXZ
VARIABLES nr, nz, rd, zd
INSTANCE Load
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w
tvars == <<nr, nz, rd, zd, l, w>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
Abs(x) == IF x < 0 THEN -x ELSE x
TInit == l = 1 /\ nr = 0 /\ nz = 0 /\ rd = 0 /\ zd = 0 /\ w = 0
World == Is("world") /\ nr' = E.nr /\ nz' = E.nz /\ rd' = E.rd /\ zd' = E.zd /\ w' = E
Here == <<E.name, "domain", E.i, E.j>>
Bot == R(E.i)  Top == R(E.i + 1)  Left == Z(E.j)  Right == Z(E.j + 1)
\* per mille of the weight in each quarter of the domain's span; along r the weight grows with r, along z with the density
RQ(q) == LET a == 1000 * Lo(Bot)  s == 250 * (Hi(Top, nr) - Lo(Bot))  b == a + s * (q - 1) IN
   (1000 * (2 * b + s)) \div (4 * (2 * a + 4 * s))
DL == 2 * nz + 2 * (w.g - 1) * Left
DR == 2 * nz + 2 * (w.g - 1) * Right
ZQ(q) == (1000 * (8 * DL + (DR - DL) * (2 * q - 1))) \div (16 * (DL + DR))
Load1 ==
  /\ Is("load") /\ UNCHANGED <<nr, nz, rd, zd, w>>
  /\ Say(E.ok, <<Here, "particles with wrong specie, cell number or values that are not finite">>)
  /\ Say(w.any \/ E.n = w.macro \div (rd * zd), <<Here, "macroparticles", E.n>>)
  /\ Say(E.n > 0, <<Here, "nothing loaded">>)
  \* milli cells
  /\ Say(E.rmin >= 500 * Lo(Bot) - 1 /\ E.rmax <= 500 * Hi(Top, nr) + 1, <<Here, "radius out of the domain's plasma", E.rmin, E.rmax>>)
  /\ Say(E.zmin >= 500 * Lo(Left) - 1 /\ E.zmax <= 500 * Hi(Right, nz) + 1, <<Here, "z out of the domain's plasma", E.zmin, E.zmax>>)
  /\ Say(E.wmin >= 999990 /\ E.wmax <= 1000010, <<Here, "weight is not proportional to the radius", E.wmin, E.wmax>>)
  \* real particles times 1000
  /\ LET x == Real2(Bot, Top, Left, Right, nr, nz, w.g) IN Say(Abs(2 * nz * (E.sum \div 10) - 100 * x) <= x \div 10 + 2 * nz, <<Here, "real particles (1e-3)", E.sum, "expected", (1000 * x) \div (2 * nz)>>)
  \* ordered placements: a full lattice with even steps, which ends less than two steps before the end of the plasma
  /\ IF ~w.any THEN TRUE ELSE
               /\ Say(E.n % (E.nlr * E.nlz) = 0, <<Here, "lattice is not full", E.n, E.nlr, E.nlz>>)
               /\ Say(E.g[2] - E.g[1] <= 1 /\ E.g[4] - E.g[3] <= 1, <<Here, "uneven lattice", E.g>>)
               /\ Say((E.nlr > 1 => 500 * Hi(Top, nr) - E.rmax <= 2 * E.g[2] + 2) /\ (E.nlz > 1 => 500 * Hi(Right, nz) - E.zmax <= 2 * E.g[4] + 2) /\ E.rmin <= 500 * Lo(Bot) + 1 /\ E.zmin <= 500 * Lo(Left) + 1, <<Here, "lattice does not fill the plasma">>)
               \* the last point has its step before the end of the plasma, where the next domain starts
               /\ Say((E.nlr > 1 => E.rmax + E.g[1] <= 500 * Hi(Top, nr) + 3) /\ (E.nlz > 1 => E.zmax + E.g[3] <= 500 * Hi(Right, nz) + 3), <<Here, "lattice goes over the end of the plasma", E.rmax, E.zmax, E.g>>)
  /\ \A q \in (IF w.any THEN {} ELSE 1..4) : /\ Say(Abs(E.rq[q] - RQ(q)) <= w.tol, <<Here, "part of the weight in quarter", q, "along r", E.rq[q], RQ(q)>>)
                     /\ Say(Abs(E.zq[q] - ZQ(q)) <= w.tol, <<Here, "part of the weight in quarter", q, "along z", E.zq[q], ZQ(q)>>)
  \* the two directions are independent: every one of the 16 parts holds the product of its shares
  /\ IF w.any THEN TRUE ELSE \A a \in 1..4 : \A b \in 1..4 : LET got == E.jq[4 * (a - 1) + b]  want == (RQ(a) * ZQ(b)) \div 1000 IN
       Say(Abs(got - want) <= w.tol \div 2, <<Here, "part of the weight in part", a, b, got, want>>)
\* velocities of a specie over the whole area: sums of direction cosines, squares of them (1e-3), kinetic energy per particle in 1e-3 of the temperature
Vel ==
  /\ Is("vel") /\ UNCHANGED <<nr, nz, rd, zd, w>>
  /\ Say(E.ok, <<E.name, "velocities not below the speed of light">>)
  /\ IF w.eigen THEN Say(\A k \in 1..3 : Abs(E.mean[k] - 577) <= 1 /\ Abs(E.sq[k] - 333) <= 1, <<E.name, "does not move along the diagonal", E.mean>>)
     ELSE \A k \in 1..3 : /\ Say(Abs(E.mean[k]) <= E.tol, <<E.name, "drifts along", k, E.mean[k]>>)
                          /\ Say(Abs(E.sq[k] - 333) <= E.tol, <<E.name, "is not isotropic along", k, E.sq[k]>>)
  \* no two components go together, and no half of the area (inner, outer, left, right) differs
  /\ IF w.eigen THEN TRUE ELSE \A k \in 1..3 : Say(Abs(E.cr[k]) <= E.tol, <<E.name, "components go together", k, E.cr[k]>>)
  /\ \A h \in {x \in 1..4 : E.half[x].n >= 100} : /\ IF w.eigen THEN TRUE ELSE \A k \in 1..3 : Say(Abs(E.half[h].m[k]) <= E.half[h].tol, <<E.name, "drifts in a half of the area", h, k, E.half[h].m[k]>>)
                                                  /\ Say(Abs(E.half[h].en - E.want) <= E.want \div 8 + (E.want \div 1000) * 2 * E.half[h].tol, <<E.name, "kinetic energy in a half of the area", h, E.half[h].en, E.want>>)
  /\ Say(Abs(E.en - E.want) <= E.want \div 8, <<E.name, "kinetic energy over temperature", E.en, "expected", E.want>>)
TNext == World \/ Load1 \/ Vel
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
