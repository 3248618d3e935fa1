------------------------------- MODULE Probe --------------------------------
(* Output.  A probe asks for a part of the area every `sched` steps.  Each    *)
(* domain writes the tile of the probe that lies in it; a frame of the data   *)
(* set is the union of the tiles.                                             *)
EXTENDS Geom
CONSTANTS NR, NZ, RD, ZD, MaxStep, Rects, Scheds

(* ---- what a probe denotes ---- *)
\* shape 0: rectangle [r0,r1) x [z0,z1);  1: column z1;  2: row r1;  3: dot (r1,z1)
ProbeCells(g, p) ==
  CASE p.shape = 0 -> (p.r0..(p.r1 - 1)) \X (p.z0..(p.z1 - 1))
    [] p.shape = 1 -> (0..(g.nr - 1)) \X {p.z1}
    [] p.shape = 2 -> {p.r1} \X (0..(g.nz - 1))
    [] p.shape = 3 -> {<<p.r1, p.z1>>}
Due(p, m) == (m % p.sched) = 0
FrameOf(p, m) == m \div p.sched          \* number (from 0) of the frame of step n
FramesAfter(p, m) == (m \div p.sched) + 1
FirstFrame(p, m) == (m + p.sched - 1) \div p.sched      \* the first frame due at step m or later
StepOf(p, f) == f * p.sched
Tile(g, d, p) == CellsOf(g, d) \cap ProbeCells(g, p)
Dims(g, p) == CASE p.shape = 0 -> <<p.r1 - p.r0, p.z1 - p.z0>>
                [] p.shape = 1 -> <<g.nr>> [] p.shape = 2 -> <<g.nz>> [] p.shape = 3 -> <<1>>
Size(g, p) == CASE p.shape = 0 -> (p.r1 - p.r0) * (p.z1 - p.z0)
                [] p.shape = 1 -> g.nr [] p.shape = 2 -> g.nz [] p.shape = 3 -> 1
\* row-major: the cell stored at (zero-based) index k of a frame
CellAtIndex(g, p, k) ==
  CASE p.shape = 0 -> <<p.r0 + (k \div (p.z1 - p.z0)), p.z0 + (k % (p.z1 - p.z0))>>
    [] p.shape = 1 -> <<k, p.z1>>
    [] p.shape = 2 -> <<p.r1, k>>
    [] p.shape = 3 -> <<p.r1, p.z1>>

(* ---- the machine ---- *)
G == [nr |-> NR, nz |-> NZ, rd |-> RD, zd |-> ZD, u |-> 1]
Shapes == {[shape |-> 0, r0 |-> a, z0 |-> b, r1 |-> cc, z1 |-> d, sched |-> s] : a \in 0..(NR-1), b \in 0..(NZ-1), cc \in 1..NR, d \in 1..NZ, s \in Scheds}
          \cup {[shape |-> k, r0 |-> 0, z0 |-> 0, r1 |-> a, z1 |-> b, sched |-> s] : k \in 1..3, a \in 0..(NR-1), b \in 0..(NZ-1), s \in Scheds}
Ok(p) == p.shape # 0 \/ (p.r0 < p.r1 /\ p.z0 < p.z1)

VARIABLES prb, n, phase, frames, todo
vars == <<prb, n, phase, frames, todo>>
Init == /\ prb \in {p \in Shapes : Ok(p)}
        /\ n = 0 /\ phase = "compute" /\ frames = <<>> /\ todo = {}
Extend == /\ phase = "compute"
          /\ IF Due(prb, n)
             THEN frames' = Append(frames, [c \in {} |-> 0]) /\ todo' = {d \in Domains(G) : Tile(G, d, prb) # {}}
             ELSE frames' = frames /\ todo' = {}
          /\ phase' = "write" /\ UNCHANGED <<prb, n>>
Write(d) == /\ phase = "write" /\ d \in todo
            /\ LET f == FrameOf(prb, n) + 1  old == frames[f] IN
               frames' = [frames EXCEPT ![f] = [c \in (DOMAIN old) \cup Tile(G, d, prb) |-> IF c \notin DOMAIN old THEN n ELSE IF c \in Tile(G, d, prb) THEN -1 ELSE old[c]]]
            /\ todo' = todo \ {d} /\ UNCHANGED <<prb, n, phase>>
EndStep == /\ phase = "write" /\ todo = {} /\ n < MaxStep
           /\ n' = n + 1 /\ phase' = "compute" /\ UNCHANGED <<prb, frames, todo>>
Next == Extend \/ EndStep \/ \E d \in Domains(G) : Write(d)
Spec == Init /\ [][Next]_vars

Complete(f) == /\ DOMAIN frames[f] = ProbeCells(G, prb)
               /\ \A c \in DOMAIN frames[f] : frames[f][c] = StepOf(prb, f - 1)
Quiescent == phase = "write" /\ todo = {}
OneFramePerSchedule == Quiescent => Len(frames) = FramesAfter(prb, n) /\ \A f \in DOMAIN frames : Complete(f)
FramesFinal == [][\A f \in DOMAIN frames : f \in DOMAIN frames' /\ (f < Len(frames) \/ Quiescent => frames'[f] = frames[f])]_vars
Indexing == \A k \in 0..(Size(G, prb) - 1) : CellAtIndex(G, prb, k) \in ProbeCells(G, prb)
IndexingOnto == {CellAtIndex(G, prb, k) : k \in 0..(Size(G, prb) - 1)} = ProbeCells(G, prb)
=============================================================================
