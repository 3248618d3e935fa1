------------------------------ MODULE LifeImpl ------------------------------
(* The way src/PiCoPiC.cpp does it: a handler that only raises flags, a main  *)
(* loop that looks at them at the end of every step, a global File pointer    *)
(* and a copy of it in every writer.  Checked to be a refinement of Life.     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS STEPS, WRITES, MAXSIG, SOFT, HARD, EXISTS, GONE   \* GONE: the user may remove the file while it is closed
VARIABLES mpc,      \* where the main program is
          step, acc,            \* step in progress, writes made in it
          lock, stopsig, launched,
          cur, wr, live, gen,   \* global pointer, writers' pointer, open File objects, last File made
          there,                \* the file is on disk
          fault, nsig, exitcode,
          want, wdue, stop, sdue, hard, broken, mayPause, mayGo   \* history, as in Life
impl == <<mpc, step, acc, lock, stopsig, launched, cur, wr, live, gen, there, fault, nsig, exitcode>>
hist == <<want, wdue, stop, sdue, hard, broken, mayPause, mayGo>>
vars == <<impl, hist>>
Bnd == [k \in 1..STEPS |-> k * WRITES]
wi == step * WRITES + acc
NIL == 0
NONE == 999
file == IF live # {} THEN "open" ELSE IF gen = 0 THEN "none" ELSE "closed"
L == INSTANCE Life WITH code <- exitcode, pc <- IF mpc = "gone" THEN "gone" ELSE IF mpc = "fatal" THEN "refused" ELSE IF wi > 0 THEN "run" ELSE "init"
Init == /\ mpc = "start" /\ step = 0 /\ acc = 0 /\ lock = FALSE /\ stopsig = 0 /\ launched = FALSE
        /\ cur = NIL /\ wr = NIL /\ live = {} /\ gen = 0 /\ there = EXISTS /\ fault = FALSE /\ nsig = 0 /\ exitcode = NONE
        /\ want = FALSE /\ wdue = 0 /\ stop = {} /\ sdue = 0 /\ hard = {} /\ broken = FALSE /\ mayPause = FALSE /\ mayGo = FALSE
Go(from, to) == mpc = from /\ mpc' = to
DeleteFile == /\ fault' = (fault \/ (cur # NIL /\ cur \notin live))
              /\ live' = live \ {cur} /\ cur' = NIL
OnClose == IF cur = NIL THEN UNCHANGED <<mayPause, mayGo>> ELSE mayPause' = FALSE /\ mayGo' = ~want
\* -- main program ------------------------------------------------------------
Open == /\ Go("start", IF there THEN "fatal" ELSE "setup")
        /\ IF there THEN UNCHANGED <<cur, live, gen, there>> ELSE gen' = gen + 1 /\ live' = live \cup {gen + 1} /\ cur' = gen + 1 /\ there' = TRUE
        /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, fault, nsig, exitcode, hist>>
Setup == /\ Go("setup", "launch") /\ wr' = cur /\ UNCHANGED <<step, acc, lock, stopsig, launched, cur, live, gen, there, fault, nsig, exitcode, hist>>
Launch == /\ Go("launch", "compute") /\ launched' = TRUE /\ UNCHANGED <<step, acc, lock, stopsig, wr, cur, live, gen, there, fault, nsig, exitcode, hist>>
Compute == Go("compute", "write") /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, cur, live, gen, there, fault, nsig, exitcode, hist>>
Write == /\ mpc = "write" /\ fault' = (fault \/ wr \notin live)
         /\ IF acc + 1 < WRITES THEN acc' = acc + 1 /\ UNCHANGED <<step, mpc>> ELSE acc' = 0 /\ step' = step + 1 /\ mpc' = "check"
         /\ UNCHANGED <<lock, stopsig, launched, wr, cur, live, gen, there, nsig, exitcode, hist>>
\* an operation on the file fails: fatal message, abort, and the handler of SIGABRT closes the file
Break == /\ mpc \in {"start", "setup", "write", "reopen"} /\ ~broken /\ broken' = TRUE /\ mpc' = "aborting"
         /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, cur, live, gen, there, fault, nsig, exitcode, want, wdue, stop, sdue, hard, mayPause, mayGo>>
Aborting == /\ Go("aborting", "fatal2") /\ DeleteFile /\ OnClose
            /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, gen, there, nsig, exitcode, want, wdue, stop, sdue, hard, broken>>
Check == /\ mpc = "check" /\ mpc' = (IF lock /\ stopsig = 0 THEN "closing" ELSE "checkstop")
         /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, cur, live, gen, there, fault, nsig, exitcode, hist>>
Closing == /\ Go("closing", "paused") /\ DeleteFile /\ OnClose
           /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, gen, there, nsig, exitcode, want, wdue, stop, sdue, hard, broken>>
Paused == /\ mpc = "paused" /\ mpc' = (IF stopsig # 0 THEN "checkstop" ELSE IF lock THEN "paused" ELSE "reopen")
          /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, cur, live, gen, there, fault, nsig, exitcode, hist>>
Reopen == /\ Go("reopen", IF there THEN "pass" ELSE "fatal")
          /\ IF there THEN gen' = gen + 1 /\ live' = live \cup {gen + 1} /\ cur' = gen + 1 /\ mayGo' = FALSE ELSE UNCHANGED <<gen, live, cur, mayGo>>
          /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, there, fault, nsig, exitcode, want, wdue, stop, sdue, hard, broken, mayPause>>
Pass == /\ Go("pass", "checkstop") /\ wr' = cur /\ UNCHANGED <<step, acc, lock, stopsig, launched, cur, live, gen, there, fault, nsig, exitcode, hist>>
CheckStop == /\ mpc = "checkstop" /\ mpc' = (IF stopsig # 0 THEN "dying" ELSE IF step < STEPS THEN "compute" ELSE "final")
             /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, cur, live, gen, there, fault, nsig, exitcode, hist>>
Dying == /\ Go("dying", "exit") /\ DeleteFile /\ OnClose
         /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, gen, there, nsig, exitcode, want, wdue, stop, sdue, hard, broken>>
Final == /\ Go("final", "exit0") /\ DeleteFile /\ OnClose
         /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, gen, there, nsig, exitcode, want, wdue, stop, sdue, hard, broken>>
Quit(from, c) == /\ Go(from, "gone") /\ exitcode' = c
                 /\ UNCHANGED <<step, acc, lock, stopsig, launched, wr, cur, live, gen, there, fault, nsig, hist>>
Main == Open \/ Setup \/ Launch \/ Compute \/ Write \/ Check \/ Closing \/ Paused \/ Reopen \/ Pass \/ CheckStop \/ Dying \/ Final
        \/ Quit("exit", stopsig) \/ Quit("exit0", 0) \/ Quit("fatal", 6) \/ Aborting \/ Quit("fatal2", 6)
\* -- handler -----------------------------------------------------------------
Running == mpc # "gone" /\ hard = {}
Can == Running /\ nsig < MAXSIG /\ nsig' = nsig + 1
Usr1 == /\ Can /\ lock' = TRUE /\ want' = TRUE /\ wdue' = (IF want THEN wdue ELSE L!Due(wi)) /\ mayPause' = TRUE
        /\ UNCHANGED <<mpc, step, acc, stopsig, launched, wr, cur, live, gen, there, fault, exitcode, stop, sdue, hard, broken, mayGo>>
Usr2 == /\ Can /\ lock' = FALSE /\ want' = FALSE /\ mayGo' = TRUE
        /\ UNCHANGED <<mpc, step, acc, stopsig, launched, wr, cur, live, gen, there, fault, exitcode, wdue, stop, sdue, hard, broken, mayPause>>
\* before the launch the handler itself ends the program: the same as the end of a step with nothing written
Term(s) == /\ Can /\ mpc \notin {"dying", "exit", "exit0", "fatal", "aborting", "fatal2"} /\ stop' = stop \cup {s} /\ sdue' = (IF stop = {} THEN L!Due(wi) ELSE sdue)
           /\ stopsig' = s /\ mpc' = (IF launched THEN mpc ELSE "dying")
           /\ UNCHANGED <<step, acc, lock, launched, wr, cur, live, gen, there, fault, exitcode, want, wdue, hard, broken, mayPause, mayGo>>
\* a fault: the handler closes the file and ends the program at once
Fault(s) == /\ Can /\ mpc \notin {"dying", "exit", "exit0", "fatal", "aborting", "fatal2"} /\ hard' = hard \cup {s} /\ stopsig' = s /\ mpc' = "dying"
            /\ UNCHANGED <<step, acc, lock, launched, wr, cur, live, gen, there, fault, exitcode, want, wdue, stop, sdue, broken, mayPause, mayGo>>
\* the user (or a reader) takes the file away while it is unlocked
Remove == /\ GONE /\ Running /\ live = {} /\ gen > 0 /\ there /\ there' = FALSE
          /\ UNCHANGED <<mpc, step, acc, lock, stopsig, launched, wr, cur, live, gen, fault, nsig, exitcode, hist>>
Env == Usr1 \/ Usr2 \/ (\E s \in SOFT : Term(s)) \/ (\E s \in HARD : Fault(s)) \/ Remove \/ Break
Next == Main \/ Env \/ (mpc = "gone" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main)
NoFault == ~fault
OneFile == Cardinality(live) <= 1
Handles == mpc \in {"compute", "write", "check"} => (wr = cur /\ live = {cur})
Refines == L!Spec
Abstract == L!TypeOK /\ L!ClosedAtEnd /\ L!Complete /\ L!Finished /\ L!PausedInTime /\ L!StoppedInTime
\* unless it is left paused, the run ends
Ends == <>(mpc = "gone" \/ [](mpc = "paused" /\ lock))
=============================================================================
