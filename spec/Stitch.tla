------------------------------- MODULE Stitch -------------------------------
(* Seams between domains.  Every domain keeps its cells plus W ghost layers   *)
(* around them.  What it deposits in a ghost belongs to the neighbour; after  *)
(* the exchange every domain that holds a cell of the area holds the total of *)
(* what all domains deposited in it.  The exchange is done along r for all    *)
(* pairs of neighbours, then along z: corners reach the diagonal neighbour in *)
(* two hops.  Pairs of one sweep are exchanged in any order (threads).        *)
EXTENDS Geom
CONSTANTS NR, NZ, RD, ZD, W

\* cells a domain keeps, with w layers of ghosts
Ext(g, d, w) == {c \in ((FirstR(g, d) - w)..(FirstR(g, d) + CR(g) - 1 + w)) \X ((FirstZ(g, d) - w)..(FirstZ(g, d) + CZ(g) - 1 + w)) : TRUE}
InExt(g, d, w, c) == /\ c[1] >= FirstR(g, d) - w /\ c[1] < FirstR(g, d) + CR(g) + w
                     /\ c[2] >= FirstZ(g, d) - w /\ c[2] < FirstZ(g, d) + CZ(g) + w
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(S \ {x}, f)
\* total deposit in a cell, dep[d][c]
Total(g, w, dep, c) == Sum({d \in Domains(g) : InExt(g, d, w, c)}, [d \in Domains(g) |-> IF InExt(g, d, w, c) THEN dep[d][c] ELSE 0])

(* ---- the machine; the exchange is linear, so one unit deposit per behaviour is general ---- *)
G == [nr |-> NR, nz |-> NZ, rd |-> RD, zd |-> ZD, u |-> 1]
VARIABLES src, cell, val, sweep, todo
vars == <<src, cell, val, sweep, todo>>
Pairs(s) == CASE s \in {1, 2} -> {<<d, <<d[1] + 1, d[2]>>>> : d \in {x \in Domains(G) : (x[1] % 2) = s - 1 /\ x[1] < RD - 1}}
              [] s \in {3, 4} -> {<<d, <<d[1], d[2] + 1>>>> : d \in {x \in Domains(G) : (x[2] % 2) = s - 3 /\ x[2] < ZD - 1}}
              [] OTHER -> {}
Init == /\ src \in Domains(G) /\ cell \in Ext(G, src, W)
        /\ val = [d \in Domains(G) |-> IF d = src THEN {<<cell, 1>>} ELSE {}]
        /\ sweep = 1 /\ todo = Pairs(1)
At(d, c) == IF \E x \in val[d] : x[1] = c THEN (CHOOSE x \in val[d] : x[1] = c)[2] ELSE 0
\* both sides of a pair get the sum over the 2W-wide strip they both hold, the whole length of the border
Shared(p) == {c \in {x[1] : x \in val[p[1]] \cup val[p[2]]} : InExt(G, p[1], W, c) /\ InExt(G, p[2], W, c)}
Exchange(p) == /\ p \in todo /\ todo' = todo \ {p}
               /\ LET sh == Shared(p)  new == {<<c, At(p[1], c) + At(p[2], c)>> : c \in sh} IN
                  val' = [val EXCEPT ![p[1]] = {x \in @ : x[1] \notin sh} \cup new, ![p[2]] = {x \in @ : x[1] \notin sh} \cup new]
               /\ UNCHANGED <<src, cell, sweep>>
NextSweep == /\ todo = {} /\ sweep < 5 /\ sweep' = sweep + 1 /\ todo' = Pairs(sweep + 1) /\ UNCHANGED <<src, cell, val>>
Next == NextSweep \/ \E p \in todo : Exchange(p)
Spec == Init /\ [][Next]_vars
Done == sweep = 5
\* the deposit reaches its owner exactly once, and every holder sees it
Stitched == Done /\ Inside(G, cell) => \A d \in Domains(G) : InExt(G, d, W, cell) => At(d, cell) = 1
NoSpill == \A d \in Domains(G) : \A x \in val[d] : x[1] = cell
=============================================================================
