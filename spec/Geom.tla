-------------------------------- MODULE Geom --------------------------------
(* The decomposition of the simulation area: a grid of nr x nz cells is cut   *)
(* into rd x zd equal domains, numbered from the axis (r) and the left wall   *)
(* (z).  Every other module takes ownership of cells from here.               *)
EXTENDS Integers, Sequences, FiniteSets

NOWHERE == <<-1, -1>>

Domains(g) == (0..(g.rd - 1)) \X (0..(g.zd - 1))
Cells(g)   == (0..(g.nr - 1)) \X (0..(g.nz - 1))
CR(g) == g.nr \div g.rd          \* cells of one domain along r
CZ(g) == g.nz \div g.zd          \* cells of one domain along z

Inside(g, c) == c[1] \in 0..(g.nr - 1) /\ c[2] \in 0..(g.nz - 1)
Owner(g, c)  == IF Inside(g, c) THEN <<c[1] \div CR(g), c[2] \div CZ(g)>> ELSE NOWHERE
CellsOf(g, d) == {c \in Cells(g) : Owner(g, c) = d}
FirstR(g, d) == d[1] * CR(g)
FirstZ(g, d) == d[2] * CZ(g)
\* a position in 1/u of a cell -> its cell (TLA+ integer division rounds down)
CellAt(g, p) == <<p[1] \div g.u, p[2] \div g.u>>
Divisible(g) == g.nr % g.rd = 0 /\ g.nz % g.zd = 0

(* The decomposition partitions the area: every cell has exactly one owner. *)
Partition(g) ==
  /\ \A c \in Cells(g) : Cardinality({d \in Domains(g) : c \in CellsOf(g, d)}) = 1
  /\ \A d \in Domains(g) : Cardinality(CellsOf(g, d)) = CR(g) * CZ(g)
=============================================================================
