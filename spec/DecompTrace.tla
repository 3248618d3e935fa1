----------------------------- MODULE DecompTrace -----------------------------
(* The real code run on the undivided area and on cut ones, step by step.      *)
(* Fields are compared cell by cell relative to the largest value: dev is 0    *)
(* for agreement up to rounding.  Particles are matched by identity.           *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Names == <<"Er", "Ephi", "Ez", "Hr", "Hphi", "Hz", "Htr", "Htphi", "Htz", "Jr", "Jphi", "Jz">>
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
Cmp == /\ l <= Len(Trace) /\ E.e = "cmp" /\ l' = l + 1
       /\ Say(E.finite, <<"undivided run has non-finite fields", E.step>>)
       /\ \A q \in 1..12 : Say(E.dev[q] = 0, <<Names[q], "differs from the undivided run at cell", E.where[q], "domains", E.dom, "step", E.step>>)
       /\ Say(E.got = E.np /\ E.dup = 0, <<"particles lost or doubled", E.dom, E.step>>)
       /\ Say(E.bad = 0, <<"particles differ from the undivided run", E.dom, E.step, E.bad>>)
TInit == l = 1
TraceSpec == TInit /\ [][Cmp]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
