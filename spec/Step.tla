-------------------------------- MODULE Step --------------------------------
(* The time step as a whole: the fields are moved on by the currents of the   *)
(* step before, then the particles move, then their motion gives the currents *)
(* of this step.  Each once, in this order, for every step of a run.  Then    *)
(* Gauss's law is kept: what the field says about the charge of a node is     *)
(* what the particles have put there up to the step before, up to what was    *)
(* there at the start.  Loops of the field (curl H) never carry charge.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, U, STEPS
VARIABLES pos, node, t           \* of Charge: place, charge of the nodes, steps of the particle
VARIABLES f, j, phase, base
svars == <<pos, node, t, f, j, phase, base>>
C == INSTANCE Charge
Faces == {"r", "z"} \X (0..(N - 1)) \X (0..(N - 1)) \cup {<<"r", i, N>> : i \in 0..(N - 1)} \cup {<<"z", N, k>> : k \in 0..(N - 1)}
Val(x, d, i, k) == IF <<d, i, k>> \in Faces THEN x[<<d, i, k>>] ELSE 0
Div(x, n) == Val(x, "r", n[1], n[2]) - Val(x, "r", n[1] - 1, n[2]) + Val(x, "z", n[1], n[2]) - Val(x, "z", n[1], n[2] - 1)
Flux(p, q) == [a \in Faces |-> IF a[1] = "r" THEN IF a[2] = C!CellR(p, q) THEN C!Fr(p, q, a[2], a[3]) ELSE 0
                               ELSE IF a[3] = C!CellZ(p, q) THEN C!Fz(p, q, a[2], a[3]) ELSE 0]
\* a loop around the cell (i, k)
Loop(c, m) == [a \in Faces |-> CASE a = <<"r", c[1], c[2]>> -> m [] a = <<"r", c[1], c[2] + 1>> -> -m
                                 [] a = <<"z", c[1], c[2]>> -> -m [] a = <<"z", c[1] + 1, c[2]>> -> m [] OTHER -> 0]
Zero == [a \in Faces |-> 0]
SInit == C!Init /\ f = Zero /\ j = Zero /\ phase = "fields" /\ base = node
Fields == /\ phase = "fields" /\ phase' = "move"
          /\ \E c \in {<<0, 0>>, <<N - 1, N - 1>>}, m \in {0, 1} : f' = [a \in Faces |-> f[a] + Loop(c, m)[a] - j[a]]
          /\ UNCHANGED <<pos, node, t, j, base>>
Move == /\ phase = "move" /\ phase' = "fields" /\ C!Step /\ j' = Flux(pos, pos') /\ UNCHANGED <<f, base>>
SNext == Fields \/ Move
SSpec == SInit /\ [][SNext]_svars
GaussNow == phase = "move" => \A n \in C!Nodes : Div(f, n) = node[n] - base[n]
\* what a run may show of its plasma when nothing enters it
Whole(first, now) == now.cnt = first.cnt /\ now.w = first.w /\ now.lost = 0 /\ now.twice = 0 /\ now.nan = 0
=============================================================================
