----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS MAXN, NAMES, IDS
VARIABLES nr, nz, rd, zd, names, hash, ids, out
INSTANCE Config
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lay
tvars == <<nr, nz, rd, zd, names, hash, ids, out, l, lay>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
Abs(x) == IF x < 0 THEN -x ELSE x
TInit == l = 1 /\ lay = <<>> /\ nr = 0 /\ nz = 0 /\ rd = 0 /\ zd = 0 /\ names = <<>> /\ hash = <<>> /\ ids = <<>> /\ out = ""
Known == {"E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z"}
OfSpecie == {"temperature", "density", "energy", "momentum/r", "momentum/phi", "momentum/z"}
Good(c) == /\ c.well /\ \A i \in DOMAIN c.vals : ValueOK(c.vals[i]) /\ Distinct(AllNames(c.sp, c.beams)) /\ HasElectrons(c.sp, c.m1) /\ HasIons(c.sp) /\ GridOK(c.nr, c.rd) /\ GridOK(c.nz, c.zd)
           /\ \A i \in DOMAIN c.probes : ProbeOK(c.probes[i], c.nr, c.nz)
           /\ \A i, j \in DOMAIN c.probes : i # j => c.probes[i].path # c.probes[j].path
\* a configuration is read: refused, or a run of it is built
Conf == /\ Is("conf") /\ out' = (IF Good(E) THEN "run" ELSE "refused")
        /\ nr' = E.nr /\ nz' = E.nz /\ rd' = E.rd /\ zd' = E.zd /\ names' = AllNames(E.sp, E.beams) /\ ids' = E.probes /\ hash' = <<>> /\ lay' = E.lay8
        /\ Say(E.out = out', <<"configuration should be", out', "is", E.out, E.why>>)
\* what the run is built of: ids, names, masses, charges (deviation in 1e-9), domains
Built == /\ Is("built") /\ out = "run" /\ UNCHANGED <<nr, nz, rd, zd, names, hash, ids, out, lay>>
         /\ Say(Len(E.doms) = rd * zd, <<"number of domains", Len(E.doms)>>)
         /\ \A n \in DOMAIN E.doms : LET d == E.doms[n]  i == (n - 1) \div zd  j == (n - 1) % zd IN
              /\ Say(<<d.b, d.l, d.t, d.r>> = <<Edge(nr, rd, i), Edge(nz, zd, j), Edge(nr, rd, i + 1), Edge(nz, zd, j + 1)>>, <<"cells of domain", i, j, d>>)
              /\ Say(Abs(d.dr) <= 1 /\ Abs(d.dz) <= 1, <<"cell size of domain", i, j, d.dr, d.dz>>)
              /\ Say(d.names = names, <<"species of domain", i, j, d.names>>)
              /\ Say(Distinct(d.ids) /\ d.ids = E.doms[1].ids, <<"ids of species", d.ids, d.names>>)
              /\ \A s \in DOMAIN d.dm : Say(Abs(d.dm[s]) <= 1 /\ Abs(d.dq[s]) <= 1, <<"mass and charge of", d.names[s], "off by (1e-9)", d.dm[s], d.dq[s]>>)
              /\ \A s \in DOMAIN d.dv : Say(Abs(d.dv[s]) <= 1, <<"densities, temperatures and beams of domain", i, j, "off by (1e-9)", d.dv>>)
              /\ Say(Abs(d.sg[1]) <= 1 /\ Abs(d.sg[2]) <= 1, <<"conductivities of the layers of domain", i, j, d.sg>>)
              \* absorbing layers (in eighths of the area; left, outer, right) reach the domains they overlap, whole
              /\ \A s \in 1..3 : LET w == (lay[s] * (IF s = 2 THEN nr ELSE nz)) \div 8 IN
                   IF lay[s] >= 0 /\ (CASE s = 1 -> d.l < w [] s = 2 -> nr - d.t < w [] OTHER -> nz - d.r < w)
                   THEN Say(d.lay[s] = w, <<"layer", s, "of domain", i, j, "is", d.lay[s], "cells, not", w>>) ELSE TRUE
         \* the macroparticles are shared by the claims of species (a grid each) and beams (their bunches in cells, times the ratio of sizes)
         /\ Say(Len(E.got) = Len(E.share), <<"shares of macroparticles", E.got>>)
         /\ \A k \in DOMAIN E.share : Say(ShareOK(E.macro, Total(E.share), E.share[k], E.got[k]), <<"share of macroparticles", k, "is", E.got[k], "claims", E.share, "of", E.macro>>)
         /\ Say(Abs(E.dt) <= 1 /\ Abs(E.end) <= 1 /\ Abs(E.clock) <= 1, <<"time step, end and start of the clock", E.dt, E.end, E.clock>>)
\* what a run of the program wrote: datasets of all probes, data only to those with a quantity that exists
Wrote == /\ Is("wrote") /\ out = "run" /\ UNCHANGED <<nr, nz, rd, zd, names, hash, ids, out, lay>>
         /\ LET w == {E.written[k] : k \in DOMAIN E.written}
                can(p) == p.comp \in Known \/ (p.comp \in OfSpecie /\ \E k \in DOMAIN names : names[k] = p.specie) IN
              \A k \in DOMAIN ids : Say((ids[k].path \in w) = can(ids[k]), <<"data of probe", ids[k].path>>)
TNext == Conf \/ Built \/ Wrote
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
