----------------------------- MODULE BounceTrace -----------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS NR, NZ, RD, ZD, U, MaxSteps, VMAX
VARIABLES pos, vel, home, beam, steps
INSTANCE Bounce
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
tvars == <<pos, vel, home, beam, steps, l, g>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Idle == UNCHANGED <<pos, vel, home, beam, steps>>
TInit == l = 1 /\ g = [nr |-> 1, nz |-> 1, rd |-> 1, zd |-> 1, u |-> 2] /\ pos = 0 /\ vel = 0 /\ home = 0 /\ beam = 0 /\ steps = 0
World == Is("world") /\ g' = [nr |-> E.nr, nz |-> E.nz, rd |-> E.rd, zd |-> E.zd, u |-> E.u] /\ Idle
\* E.in: <<domain r, domain z, beam?, r, z>> ; E.out: <<r, z, sign vr, sign vz, vphi kept, old kept>> (r,z scaled by u)
Case(i, o) == LET d == <<i[1], i[2]>>  p == <<i[4], i[5]>>
                  m == IF i[3] = 1 THEN ReflectBeam(g, d, p) ELSE ReflectPlasma(g, d, p) IN
              o = <<m[1][1], m[2][1], m[1][2], m[2][2], 1, 1>>
Reflect == Is("reflect") /\ (\A k \in DOMAIN E.in : IF Case(E.in[k], E.out[k]) THEN TRUE ELSE Print(<<"VIOLATED", E.in[k], E.out[k]>>, FALSE)) /\ UNCHANGED g /\ Idle
\* one whole step of a particle, fields off: <<dr, dz, beam?, r, z, vr, vz>> -> <<r, z, vr, vz, held by domain>> (1/u of a cell, per step)
Whole(i, o) == LET d == <<i[1], i[2]>>  q == <<i[4] + i[6], i[5] + i[7]>>
                   m == IF i[3] = 1 THEN ReflectBeam(g, d, q) ELSE ReflectPlasma(g, d, q)
                   h == Owner(g, CellAt(g, <<m[1][1], m[2][1]>>)) IN
               IF h = NOWHERE THEN o = <<-1, -1>> ELSE
               o = <<m[1][1], m[2][1], i[6] * m[1][2], i[7] * m[2][2], h[1], h[2]>>
StepEv == Is("step") /\ (\A k \in DOMAIN E.in : IF Whole(E.in[k], E.out[k]) THEN TRUE ELSE Print(<<"VIOLATED", E.in[k], E.out[k]>>, FALSE)) /\ UNCHANGED g /\ Idle
TNext == World \/ Reflect \/ StepEv
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
