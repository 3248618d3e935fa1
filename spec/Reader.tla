------------------------------- MODULE Reader -------------------------------
(* The data a run leaves and the library that reads them back.  The file has  *)
(* for each probe a data set of frames, each stored row-major; the reader is  *)
(* asked for frames, for ranges of frames and for parts of rectangles, and    *)
(* has to answer with the values the asked cells had at the asked steps.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NR, NZ, RD, ZD, MaxStep, Rects, Scheds
VARIABLES prb, n, phase, frames, todo
P == INSTANCE Probe
ProbeCells(g, p) == P!ProbeCells(g, p)
Size(g, p) == P!Size(g, p)
Dims(g, p) == P!Dims(g, p)
CellAtIndex(g, p, k) == P!CellAtIndex(g, p, k)
FramesAfter(p, m) == P!FramesAfter(p, m)
StepOf(p, f) == P!StepOf(p, f)

(* ---- what a question denotes ----                                          *)
\* part: "all" the frame, "col" / "row" / "dot" of a rectangle, counted from its corner
PartDims(g, p, q) == CASE q.part = "all" -> Dims(g, p)
                       [] q.part = "col" -> <<p.r1 - p.r0>>
                       [] q.part = "row" -> <<p.z1 - p.z0>>
                       [] q.part = "dot" -> <<1>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
PartSize(g, p, q) == Prod(PartDims(g, p, q))
\* the cell of the area at (zero-based) place k of the answer for one frame
CellOf(g, p, q, k) == CASE q.part = "all" -> CellAtIndex(g, p, k)
                        [] q.part = "col" -> <<p.r0 + k, p.z0 + q.z>>
                        [] q.part = "row" -> <<p.r0 + q.r, p.z0 + k>>
                        [] q.part = "dot" -> <<p.r0 + q.r, p.z0 + q.z>>
InPart(p, q) == CASE q.part = "all" -> TRUE
                  [] q.part = "col" -> q.z < p.z1 - p.z0
                  [] q.part = "row" -> q.r < p.r1 - p.r0
                  [] q.part = "dot" -> q.r < p.r1 - p.r0 /\ q.z < p.z1 - p.z0
\* frames a .. b-1 of the nf there are
There(q, nf) == q.a >= 0 /\ q.b <= nf
\* the answer's value k (zero-based) of a question about frames a .. b-1: <<step, cell>>
Denotes(g, p, q, k) == LET sz == PartSize(g, p, q) IN <<StepOf(p, q.a + (k \div sz)), CellOf(g, p, q, k % sz)>>
AnswerSize(g, p, q) == (q.b - q.a) * PartSize(g, p, q)

(* ---- how the reader finds it: the place in the stored sequence ----        *)
Flat(g, p, q, k) ==
  LET sz == PartSize(g, p, q)  f == q.a + (k \div sz)  i == k % sz  w == p.z1 - p.z0 IN
  (f * Size(g, p)) + (CASE q.part = "all" -> i
                        [] q.part = "col" -> (i * w) + q.z
                        [] q.part = "row" -> (q.r * w) + i
                        [] q.part = "dot" -> (q.r * w) + q.z)

(* ---- the machine: a run writes, a reader may ask whenever the file is closed ---- *)
G == [nr |-> NR, nz |-> NZ, rd |-> RD, zd |-> ZD, u |-> 1]
VARIABLES step, store, ask, ans
rvars == <<prb, n, phase, frames, todo, step, store, ask, ans>>
Field(s, c) == (((s * NR) + c[1]) * NZ) + c[2]
Frame(p, s) == [k \in 1..Size(G, p) |-> Field(s, CellAtIndex(G, p, k - 1))]
RInit == /\ prb \in {p \in P!Shapes : P!Ok(p)} /\ n = 0 /\ phase = "" /\ frames = <<>> /\ todo = {}
         /\ step = -1 /\ store = <<>> /\ ask = [part |-> "none"] /\ ans = <<>>
RunStep == /\ step < MaxStep /\ step' = step + 1
           /\ store' = IF P!Due(prb, step') THEN store \o Frame(prb, step') ELSE store
           /\ ask' = [part |-> "none"] /\ ans' = <<>>
           /\ UNCHANGED <<prb, n, phase, frames, todo>>
Parts == IF prb.shape # 0 THEN {"all"} ELSE {"all", "col", "row", "dot"}
NF == Len(store) \div Size(G, prb)
Read(pt, a, b, r, z) ==
  LET q == [part |-> pt, a |-> a, b |-> b, r |-> r, z |-> z] IN
  /\ InPart(prb, q) /\ There(q, NF)
  /\ ask' = q
  /\ ans' = [k \in 1..AnswerSize(G, prb, q) |-> store[Flat(G, prb, q, k - 1) + 1]]
  /\ UNCHANGED <<prb, n, phase, frames, todo, step, store>>
RNext == RunStep \/ \E pt \in Parts, a \in 0..NF, r \in 0..(NR - 1), z \in 0..(NZ - 1) : \E b \in a..NF : Read(pt, a, b, r, z)
RSpec == RInit /\ [][RNext]_rvars
Truthful == ask.part # "none" =>
  \A k \in 1..Len(ans) : LET d == Denotes(G, prb, ask, k - 1) IN ans[k] = Field(d[1], d[2]) /\ d[2] \in ProbeCells(G, prb) /\ d[1] <= step
EveryFrame == step >= 0 => NF = FramesAfter(prb, step)
=============================================================================
