---------------------------- MODULE MigrateTrace -----------------------------
(* Recorded runs of the collector, judged by Migrate's Collected.              *)
EXTENDS Geom, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, home, sp
tvars == <<l, g, home, sp>>
\* the big step proved equal to the four passes in Migrate
Dest(gg, p, h) == IF h = NOWHERE THEN NOWHERE ELSE Owner(gg, CellAt(gg, p))
Collected(gg, ps, hs) == [p \in DOMAIN hs |-> Dest(gg, ps[p], hs[p])]
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Init == l = 1 /\ g = [nr |-> 1, nz |-> 1, rd |-> 1, zd |-> 1, u |-> 1] /\ home = <<>> /\ sp = <<>>
World == Is("world") /\ g' = [nr |-> E.nr, nz |-> E.nz, rd |-> E.rd, zd |-> E.zd, u |-> E.u] /\ home' = <<>> /\ sp' = <<>>
Place == /\ Is("place") /\ home' = E.home /\ sp' = E.sp /\ g' = g
\* each particle exactly once, with its data and specie, in the domain that owns it; or gone
Round == /\ Is("round") /\ g' = g /\ sp' = sp
         /\ E.strange = 0
         /\ home' = Collected(g, E.pos, home)
         /\ E.home = home'
         /\ \A p \in DOMAIN home : IF home'[p] = NOWHERE THEN E.cnt[p] = 0
                                    ELSE E.cnt[p] = 1 /\ E.ok[p] = 1 /\ E.sp[p] = sp[p]
\* a step of a whole simulation: cells are given, ownership and conservation are judged
Next == World \/ Place \/ Round
TraceSpec == Init /\ [][Next]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
