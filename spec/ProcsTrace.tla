------------------------------ MODULE ProcsTrace ------------------------------
(* The area run in one process and split over several: what the processes say  *)
(* to each other (send, recv, bar) must be a history of Mpi, everybody must     *)
(* come to the end, and fields, currents and particles must be those of the     *)
(* run in one process after every step.                                         *)
EXTENDS Mpi, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, box, waits, bars
E == Trace[l]
Names == <<"Er", "Ephi", "Ez", "Hr", "Hphi", "Hz", "Htr", "Htphi", "Htz", "Jr", "Jphi", "Jz">>
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
On == l <= Len(Trace) /\ l' = l + 1
Start == On /\ E.e = "start" /\ n' = E.n /\ box' = EmptyBox(E.n) /\ waits' = [p \in 0..(E.n - 1) |-> -1] /\ bars' = [p \in 0..(E.n - 1) |-> 0]
\* a process goes on only when its last send and its last barrier are over
Free(p) == /\ Say(waits[p] = -1 \/ Taken(box, p, waits[p]), <<"process went on before its message was taken", p>>)
           /\ Say(\A q \in 0..(n - 1) : bars[q] >= bars[p], <<"process passed a barrier others had not reached", p>>)
Send == /\ On /\ E.e = "send" /\ Free(E.rank)
        /\ Say(E.peer \in 0..(n - 1) /\ E.peer # E.rank, <<"message to nobody", E.rank, E.peer>>)
        /\ box' = Put(box, E.rank, E.peer, <<E.tag, E.sig>>) /\ waits' = [waits EXCEPT ![E.rank] = IF E.kept THEN -1 ELSE E.peer] /\ UNCHANGED <<n, bars>>
Recv == /\ On /\ E.e = "recv" /\ Free(E.rank)
        /\ Say(CanTake(box, E.peer, E.rank), <<"received what was not sent", E.rank, E.peer>>)
        /\ Say(Oldest(box, E.peer, E.rank) = <<E.tag, E.sig>>, <<"sent as", Oldest(box, E.peer, E.rank), "received as", <<E.tag, E.sig>>>>)
        /\ box' = Take(box, E.peer, E.rank) /\ UNCHANGED <<n, waits, bars>>
Bar == On /\ E.e = "bar" /\ Free(E.rank) /\ bars' = [bars EXCEPT ![E.rank] = @ + 1] /\ UNCHANGED <<n, box, waits>>
Step == On /\ E.e = "step" /\ Free(E.rank) /\ UNCHANGED <<n, box, waits, bars>>
End == /\ On /\ E.e = "end" /\ Say(E.res = "", <<"split over processes", E.n, "sends kept", E.keep, E.res>>)
       /\ Say(E.talked = FALSE \/ \A p \in DOMAIN box : box[p] = <<>>, <<"messages left on the way">>) /\ UNCHANGED <<n, box, waits, bars>>
Load == /\ On /\ E.e = "load"
        /\ Say(E.parts = E.got /\ E.badn = 0, <<"macroparticles at the start depend on the number of processes", E.n>>)
        /\ Say(E.badw = 0, <<"charge of the plasma at the start depends on the number of processes", E.n>>) /\ UNCHANGED <<n, box, waits, bars>>
Cmp == /\ On /\ E.e = "cmp"
       /\ Say(E.finite, <<"run in one process has non-finite fields", E.step>>)
       /\ \A q \in 1..12 : Say(E.dev[q] = 0, <<Names[q], "differs from the run in one process at cell", E.where[q], "processes", E.n, "step", E.step>>)
       /\ Say(E.got = E.np /\ E.dup = 0, <<"particles lost or doubled, processes", E.n, "step", E.step>>)
       /\ Say(E.away = 0, <<"particles held by a process they are not in", E.n, E.step>>)
       /\ Say(E.bad = 0, <<"particles differ from the run in one process", E.n, E.step, E.bad>>) /\ UNCHANGED <<n, box, waits, bars>>
TInit == l = 1 /\ n = 0 /\ box = <<>> /\ waits = <<>> /\ bars = <<>>
TraceSpec == TInit /\ [][Start \/ Send \/ Recv \/ Bar \/ Step \/ End \/ Load \/ Cmp]_<<l, n, box, waits, bars>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
