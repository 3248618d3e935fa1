----------------------------- MODULE StitchTrace -----------------------------
(* Grids of the real domains before and after the exchange.                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS NR, NZ, RD, ZD, W
VARIABLES src, cell, val, sweep, todo
INSTANCE Stitch
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, dep
tvars == <<src, cell, val, sweep, todo, l, g, dep>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Idle == UNCHANGED <<src, cell, val, sweep, todo>>
TInit == l = 1 /\ g = [nr |-> 1, nz |-> 1, rd |-> 1, zd |-> 1, u |-> 1] /\ dep = <<>> /\ src = 0 /\ cell = 0 /\ val = 0 /\ sweep = 0 /\ todo = 0
World == Is("world") /\ g' = [nr |-> E.nr, nz |-> E.nz, rd |-> E.rd, zd |-> E.zd, u |-> 1] /\ dep' = <<>> /\ Idle
\* grids: one sequence per domain (row by row), each a sequence of rows, of cells, from the first ghost
Num(d) == d[1] * g.zd + d[2] + 1
Ent(s, d, c) == s[Num(d)][c[1] - FirstR(g, d) + W + 1][c[2] - FirstZ(g, d) + W + 1]
Before == Is("before") /\ dep' = E.v /\ UNCHANGED g /\ Idle
\* the domains that can hold the cell: ghosts (no more than a domain wide) reach the next domain only
Near(c) == {d \in (((c[1] - W) \div CR(g))..((c[1] + W) \div CR(g))) \X (((c[2] - W) \div CZ(g))..((c[2] + W) \div CZ(g))) : d \in Domains(g)}
Sub(c) == Sum({d \in Near(c) : InExt(g, d, W, c)}, [d \in Near(c) |-> IF InExt(g, d, W, c) THEN Ent(dep, d, c) ELSE 0])
\* E.need: how many ghost layers must agree with the owner
After == /\ Is("after")
         \* (IF: a plain conjunct is unfolded cell by cell on TLC's stack)
         /\ IF \A c \in Cells(g) : LET t == Sub(c) IN
              \A d \in Near(c) : InExt(g, d, E.need, c) =>
                IF Ent(E.v, d, c) = t THEN TRUE ELSE Print(<<"VIOLATED", E.kind, d, c, Ent(E.v, d, c), t>>, FALSE)
            THEN TRUE ELSE FALSE
         /\ UNCHANGED <<g, dep>> /\ Idle
TNext == World \/ Before \/ After
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
