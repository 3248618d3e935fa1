----------------------------- MODULE ProbeTrace ------------------------------
(* Recorded output of the real program, judged by Probe's operators.           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS NR, NZ, RD, ZD, MaxStep, Rects, Scheds
VARIABLES prb, n, phase, frames, todo      \* of Probe; here prb is the list of probes
INSTANCE Probe
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, at
tvars == <<prb, n, phase, frames, todo, l, g, at>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Keep == UNCHANGED <<phase, frames, todo>>
TInit == l = 1 /\ g = [nr |-> 1, nz |-> 1, rd |-> 1, zd |-> 1, u |-> 1] /\ at = 0 /\ prb = <<>> /\ n = -1 /\ phase = "" /\ frames = <<>> /\ todo = {}
World == /\ Is("world") /\ g' = [nr |-> E.nr, nz |-> E.nz, rd |-> E.rd, zd |-> E.zd, u |-> 1]
         /\ prb' = E.probes /\ n' = -1 /\ at' = 1 /\ Keep
\* after step n every probe has exactly the frames due so far
Step == /\ Is("step") /\ n' = n + 1 /\ E.n = n'
        /\ \A i \in DOMAIN prb : E.frames[i] = FramesAfter(prb[i], n')
        /\ UNCHANGED <<g, prb, at>> /\ Keep
Code(p, s, c) == ((((s * 9 + p.comp) * g.nr) + c[1]) * g.nz) + c[2]
\* frame f holds, at every index, the value its cell had at step f * sched
Data == /\ Is("data") /\ at' = at + 1
        /\ LET p == prb[at]  sz == Size(g, p)  nf == FramesAfter(p, n) IN
             /\ E.dims = <<nf>> \o Dims(g, p)
             /\ Len(E.v) = nf * sz
             /\ IF \A k \in 1..Len(E.v) : LET f == (k - 1) \div sz  i == (k - 1) % sz IN
                   E.hit[k] = 1 /\ E.v[k] = Code(p, StepOf(p, f), CellAtIndex(g, p, i))
                THEN TRUE ELSE Print(<<"VIOLATED", "values of probe", p>>, FALSE)
        /\ UNCHANGED <<g, prb, n>> /\ Keep
End == /\ Is("end") /\ at = Len(prb) + 1 /\ E.faults = 0
       /\ {E.dsets[i] : i \in DOMAIN E.dsets} = {prb[i].path : i \in DOMAIN prb}
       /\ UNCHANGED <<g, prb, n, at>> /\ Keep
\* a whole run of the program: `steps` steps were due, from step `from` of the clock on; each frame of each probe written, none twice
RunEv == /\ Is("run")
         /\ \A i \in DOMAIN E.probes :
              LET q == E.probes[i]  a == FirstFrame(q, E.from)  b == FrameOf(q, E.from + E.steps - 1) IN
                /\ q.frames = (IF a <= b THEN b + 1 ELSE 1)
                /\ {q.slices[j] : j \in DOMAIN q.slices} = a..b
                /\ \A j \in DOMAIN q.times : q.times[j] = q.times[1]
         /\ UNCHANGED <<g, prb, n, at>> /\ Keep
\* sparse histories: frames[i] = {<<frame, ordinal of the step>>} written so far by probe i
Jump == /\ Is("jump") /\ n' = E.n /\ E.n > n
        /\ frames' = [i \in DOMAIN prb |-> (IF E.ord = 1 THEN {} ELSE frames[i]) \cup (IF Due(prb[i], E.n) THEN {<<FrameOf(prb[i], E.n), E.ord>>} ELSE {})]
        /\ \A i \in DOMAIN prb : E.frames[i] = 1 + (IF frames'[i] = {} THEN 0 ELSE CHOOSE f \in {x[1] : x \in frames'[i]} : \A x \in frames'[i] : x[1] <= f)
        /\ UNCHANGED <<g, prb, at, phase, todo>>
Sparse == /\ Is("sparse") /\ at' = at + 1
          /\ LET p == prb[at]  sz == Size(g, p) IN
               /\ {E.got[j].f : j \in DOMAIN E.got} = {x[1] : x \in frames[at]}
               /\ \A j \in DOMAIN E.got : \A x \in frames[at] : x[1] = E.got[j].f =>
                      Len(E.got[j].v) = sz /\ \A k \in 1..sz : E.got[j].v[k] = Code(p, x[2], CellAtIndex(g, p, k - 1))
          /\ UNCHANGED <<g, prb, n>> /\ Keep
Done == Is("done") /\ at = Len(prb) + 1 /\ E.faults = 0 /\ UNCHANGED <<g, prb, n, at>> /\ Keep
TNext == Jump \/ Sparse \/ Done \/ World \/ Step \/ Data \/ End \/ RunEv
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
