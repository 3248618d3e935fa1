------------------------------ MODULE ParTrace -------------------------------
(* Footprints and outcomes of the real parallel phases.                        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tol
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
S(q) == {q[i] : i \in DOMAIN q}
\* Par!ConflictFree
ConflictFree(r, w, rl, wl) ==
  /\ \A t \in w : (r \cup w \cup rl \cup wl) \subseteq {t}
  /\ \A t \in wl : (r \cup w) \subseteq {t}
Init == l = 1 /\ tol = 0
World == Is("world") /\ tol' = E.tol
\* one class of words of one region: who touched it, how
WordsEv == Is("words") /\ ConflictFree(S(E.r), S(E.w), S(E.rl), S(E.wl)) /\ tol' = tol
\* what a phase left behind under this schedule, against the reference schedule
Outcome == Is("outcome") /\ E.missing = 0 /\ E.extra = 0 /\ E.elsewhere = 0 /\ E.dev <= tol /\ tol' = tol
Next == World \/ WordsEv \/ Outcome
TraceSpec == Init /\ [][Next]_<<l, tol>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
