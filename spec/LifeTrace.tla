------------------------------ MODULE LifeTrace ------------------------------
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bnd == Trace[1].bnd
SOFT == {2, 3, 13, 15, 20}
HARD == {4, 6, 7, 8, 11}
VARIABLES pc, file, wi, want, wdue, stop, sdue, hard, broken, mayPause, mayGo, code
INSTANCE Life
VARIABLES l, here, naps      \* the file is on disk; naps since there is nothing to wait for
lvars == <<pc, file, wi, want, wdue, stop, sdue, hard, broken, mayPause, mayGo, code>>
tvars == <<pc, file, wi, want, wdue, stop, sdue, hard, broken, mayPause, mayGo, code, l, here, naps>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
At == <<"after writes", wi, "file", file, "paused", want, "stop", stop, "faults", hard, "error", broken>>
TInit == l = 2 /\ Init /\ here = FALSE /\ naps = 0 /\ Trace[1].e = "cfg"
Run == /\ Is("run") /\ here' = E.exists /\ naps' = 0
       /\ pc' = "init" /\ file' = "none" /\ wi' = 0 /\ want' = FALSE /\ wdue' = 0 /\ stop' = {} /\ sdue' = 0 /\ hard' = {} /\ broken' = FALSE
       /\ mayPause' = FALSE /\ mayGo' = FALSE /\ code' = NONE
\* every frame of the steps made so far is in the file
OpenF == /\ Is("open") /\ naps' = naps
         /\ CASE E.mode = "create" -> Say(~here /\ file = "none" /\ pc = "init", <<"data file made", At>>) /\ Create /\ here' = TRUE
              [] E.mode = "open" -> Say(file = "closed" /\ mayGo /\ hard = {}, <<"data file opened", At>>) /\ Reopen /\ here' = here
              [] E.mode = "fail" -> /\ here' = here
                                    /\ Say(broken \/ here = (file = "none"), <<"data file can not be opened", At>>)
                                    /\ IF file = "none" THEN Refuse ELSE CannotReopen
              [] OTHER -> Say(FALSE, <<"data file opened with", E.mode, At>>)
Prep == Is("prep") /\ Say(Access, <<"data file changed", At>>) /\ UNCHANGED <<lvars, here, naps>>
WriteF == /\ Is("write") /\ Say(E.ok, <<"a frame that does not belong to this step, or twice", At>>)
          /\ Say(CanWrite, <<"written to the data file", At, "pause due", wdue, "stop due", sdue>>) /\ Write /\ naps' = 0 /\ here' = here
CloseF == Is("close") /\ Say(CanClose, <<"data file closed", At>>) /\ Close /\ UNCHANGED <<here, naps>>
Sig == /\ Is("sig") /\ UNCHANGED <<here, naps>>
       /\ CASE E.n = 10 -> Usr1 [] E.n = 12 -> Usr2 [] E.n \in SOFT -> Stop(E.n) [] OTHER -> Hard(E.n)
IoErr == Is("ioerr") /\ Fail /\ UNCHANGED <<here, naps>>
Removed == Is("remove") /\ here' = FALSE /\ UNCHANGED <<lvars, naps>>
Nap == /\ Is("sleep") /\ naps' = (IF Waiting THEN 0 ELSE naps + 1) /\ UNCHANGED <<lvars, here>>
       /\ Say(naps' <= 2, <<"waiting for nothing", At>>)
       /\ Say(file = "closed", <<"waiting with the data file locked", At>>)
       /\ Say((E.disk = "closed") = here, <<"data file on disk is", E.disk, At>>)
Stuck == Is("stuck") /\ Say(Waiting, <<"waiting for nothing", At>>) /\ UNCHANGED <<lvars, here, naps>>
End == /\ Is("end") /\ UNCHANGED <<here, naps>>
       /\ Say(E.stuck \/ CanExit(E.code), <<"ended with status", E.code, At, pc, M>>)
       /\ (IF E.stuck THEN UNCHANGED lvars ELSE Exit(E.code))
       /\ Say(E.disk = (IF here THEN "closed" ELSE "absent") \/ E.other, <<"data file left on disk", E.disk, At>>)
       /\ Say(E.same, <<"contents of the data file", E.what, At>>)
TNext == Run \/ OpenF \/ Prep \/ WriteF \/ CloseF \/ Sig \/ IoErr \/ Removed \/ Nap \/ Stuck \/ End
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
