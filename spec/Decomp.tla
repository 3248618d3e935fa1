------------------------------- MODULE Decomp -------------------------------
(* Decomposition transparency.  The fields live twice: once on the undivided  *)
(* area (GE, GH) and once cut into domains (DE, DH), each domain keeping its  *)
(* own cells and one layer of ghosts.  A step is: new E from H of the cell    *)
(* and its lower neighbours; exchange; new H from E of the cell and its upper *)
(* neighbours; exchange.  Domains are processed in any order.  The step is    *)
(* linear, so a unit value in one cell of one field represents all contents.  *)
EXTENDS Geom
CONSTANTS NR, NZ, RD, ZD, STEPS, SKIP      \* SKIP: exchange left out (0 = none; used to see that it matters)
G == [nr |-> NR, nz |-> NZ, rd |-> RD, zd |-> ZD, u |-> 1]
M == 97                                    \* arithmetic modulo a prime keeps values small
VARIABLES GE, GH, DE, DH, phase, todo, step
vars == <<GE, GH, DE, DH, phase, todo, step>>
Ext(d) == {c \in ((FirstR(G, d) - 1)..(FirstR(G, d) + CR(G))) \X ((FirstZ(G, d) - 1)..(FirstZ(G, d) + CZ(G))) : TRUE}
At(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
\* stencils; the coefficients stand for the finite differences (the one with c[1]: terms with 1/r, which name the global row)
NewE(e, h, c) == (At(e, c) + (c[1] + 3) * (At(h, c) - At(h, <<c[1] - 1, c[2]>>)) + 5 * (At(h, c) - At(h, <<c[1], c[2] - 1>>))) % M
NewH(e, h, c) == (At(h, c) + (c[1] + 7) * (At(e, <<c[1] + 1, c[2]>>) - At(e, c)) + 11 * (At(e, <<c[1], c[2] + 1>>) - At(e, c))) % M
Own(d, f) == [c \in Ext(d) |-> IF Inside(G, c) THEN f[c] ELSE 0]
Unit(x) == [c \in Cells(G) |-> IF c = x THEN 1 ELSE 0]
Zero == [c \in Cells(G) |-> 0]
Init == /\ \E x \in Cells(G) : \/ GE = Unit(x) /\ GH = Zero
                               \/ GE = Zero /\ GH = Unit(x)
        /\ DE = [d \in Domains(G) |-> Own(d, GE)] /\ DH = [d \in Domains(G) |-> Own(d, GH)]
        /\ phase = "E" /\ todo = Domains(G) /\ step = 0
\* one domain computes its own cells from what it holds
DoE(d) == /\ phase = "E" /\ d \in todo /\ todo' = todo \ {d}
          /\ DE' = [DE EXCEPT ![d] = [c \in Ext(d) |-> IF Owner(G, c) = d THEN NewE(DE[d], DH[d], c) ELSE 0]]
          /\ UNCHANGED <<GE, GH, DH, phase, step>>
DoH(d) == /\ phase = "H" /\ d \in todo /\ todo' = todo \ {d}
          /\ DH' = [DH EXCEPT ![d] = [c \in Ext(d) |-> IF Owner(G, c) = d THEN NewH(DE[d], DH[d], c) ELSE 0]]
          /\ UNCHANGED <<GE, GH, DE, phase, step>>
Exch(f) == [d \in Domains(G) |-> [c \in Ext(d) |-> IF Inside(G, c) THEN f[Owner(G, c)][c] ELSE 0]]
XchE == /\ phase = "E" /\ todo = {} /\ phase' = "H" /\ todo' = Domains(G)
        /\ DE' = IF SKIP = 1 THEN DE ELSE Exch(DE)
        /\ GE' = [c \in Cells(G) |-> NewE(GE, GH, c)] /\ UNCHANGED <<GH, DH, step>>
XchH == /\ phase = "H" /\ todo = {} /\ step < STEPS /\ phase' = "E" /\ todo' = Domains(G) /\ step' = step + 1
        /\ DH' = IF SKIP = 2 THEN DH ELSE Exch(DH)
        /\ GH' = [c \in Cells(G) |-> NewH(GE, GH, c)] /\ UNCHANGED <<GE, DE>>
Next == XchE \/ XchH \/ \E d \in Domains(G) : DoE(d) \/ DoH(d)
Spec == Init /\ [][Next]_vars
\* between steps the cut area equals the undivided one
Transparent == phase = "E" /\ todo = Domains(G) => \A c \in Cells(G) : DE[Owner(G, c)][c] = GE[c] /\ DH[Owner(G, c)][c] = GH[c]
=============================================================================
