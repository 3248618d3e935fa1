----------------------------- MODULE ReaderTrace -----------------------------
(* Answers of the real reader to questions about files of the real program.   *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS NR, NZ, RD, ZD, MaxStep, Rects, Scheds
VARIABLES prb, n, phase, frames, todo, step, store, ask, ans
INSTANCE Reader
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
tvars == <<prb, n, phase, frames, todo, step, store, ask, ans, l, g>>
E == Trace[l]
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
Keep == UNCHANGED <<n, phase, frames, todo, store, ask, ans>>
TInit == l = 1 /\ g = [nr |-> 1, nz |-> 1, rd |-> 1, zd |-> 1, u |-> 1] /\ prb = <<>> /\ step = -1
         /\ n = 0 /\ phase = "" /\ frames = <<>> /\ todo = {} /\ store = <<>> /\ ask = <<>> /\ ans = <<>>
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
\* a file, written by a run of E.steps steps, opened by the reader
Open == /\ Is("open") /\ g' = [nr |-> E.nr, nz |-> E.nz, rd |-> E.rd, zd |-> E.zd, u |-> 1]
        /\ prb' = E.probes /\ step' = E.steps - 1
        /\ Say(E.err = "", "the file can be opened")
        /\ Keep
NFof(p) == FramesAfter(p, step)
Code(c, s, cell) == ((((c * 64) + s) * 32 + cell[1]) * 32) + cell[2]
\* E.probe: number of the probe asked about, 0 - one that is not in the file
Ask == /\ Is("read")
       /\ IF E.probe = 0 THEN Say(E.err # "", "data of a probe that is not in the file")
          ELSE LET p == prb[E.probe]  nf == NFof(p)
                   q == [part |-> E.part, a |-> E.a, b |-> IF E.b = -1 THEN nf ELSE E.b, r |-> E.r, z |-> E.z] IN
               IF ~(InPart(p, q) /\ There(q, nf)) THEN Say(E.err # "" \/ (q.a = q.b /\ E.v = <<>>), "data that are not in the file")
               ELSE /\ Say(E.err = "", "data that are in the file can be read")
                    /\ Say(E.dims = (IF E.range THEN <<q.b - q.a>> ELSE <<>>)
                                    \o (IF PartDims(g, p, q) = <<1>> /\ ((p.shape = 3) \/ q.part = "dot") THEN <<>> ELSE PartDims(g, p, q)), "size of the answer")
                    /\ Say(/\ Len(E.v) = AnswerSize(g, p, q)
                           /\ \A k \in 1..Len(E.v) : LET d == Denotes(g, p, q, k - 1) IN E.v[k] = Code(p.comp, d[1], d[2]), "values of the answer")
       /\ UNCHANGED <<g, prb, step>> /\ Keep
\* frames and times
Time == /\ Is("time")
        /\ LET p == prb[E.probe] IN
             /\ Say(\A i \in DOMAIN E.f : E.back[i] = E.f[i], "the frame at the time of a frame is that frame")
             /\ Say(\A i \in DOMAIN E.f : E.step[i] = StepOf(p, E.f[i]), "time of a frame is the time of its step")
             /\ Say(\A i \in DOMAIN E.near : E.near[i] = E.nf[i], "the nearest frame")
        /\ UNCHANGED <<g, prb, step>> /\ Keep
\* rows and columns, radii and longitudes
Place == /\ Is("place")
         /\ Say(E.row = [i \in 1..(g.nr + 1) |-> i - 1], "row at the radius of a row")
         /\ Say(E.col = [i \in 1..(g.nz + 1) |-> i - 1], "column at the longitude of a column")
         /\ Say(\A i \in 1..(g.nr + 1) : \A x \in DOMAIN E.nrow[i] : E.nrow[i][x] = i - 1, "the row nearest to a radius")
         /\ Say(\A i \in 1..(g.nz + 1) : \A x \in DOMAIN E.ncol[i] : E.ncol[i][x] = i - 1, "the column nearest to a longitude")
         /\ Say(E.r = [i \in 1..(g.nr + 1) |-> E.q * (i - 1)], "radius of a row")
         /\ Say(E.z = [i \in 1..(g.nz + 1) |-> E.q * (i - 1)], "longitude of a column")
         /\ UNCHANGED <<g, prb, step>> /\ Keep
\* what the reader says about the run, and what the configuration said
Meta == /\ Is("meta") /\ Say(E.got = E.want, "description of the run")
        /\ UNCHANGED <<g, prb, step>> /\ Keep
\* values kept in the cache
Cache == /\ Is("cache")
         /\ Say(E.got = E.want, "value kept in the cache")
         /\ UNCHANGED <<g, prb, step>> /\ Keep
\* files made by loading the library and by reading
Made == /\ Is("made") /\ Say(E.files = <<>>, "reading makes no files")
        /\ UNCHANGED <<g, prb, step>> /\ Keep
TNext == Open \/ Ask \/ Time \/ Place \/ Meta \/ Cache \/ Made
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
