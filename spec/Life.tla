-------------------------------- MODULE Life --------------------------------
(* What the user of the program sees of the data file while signals arrive:  *)
(* SIGUSR1 pauses at the end of the step in progress with the file closed,   *)
(* SIGUSR2 continues into the same file, a termination signal ends the run   *)
(* with every frame of the steps made complete, at any moment and in any     *)
(* order.  Writes are counted; Bnd[k] is their number after step k.          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Bnd, SOFT, HARD      \* SOFT: termination requests;  HARD: faults
VARIABLES pc,      \* "init", "run", "refused", "gone"
          file,    \* "none", "open", "closed"
          wi,      \* writes made
          want,    \* the last of SIGUSR1 / SIGUSR2 is SIGUSR1
          wdue,    \* ... writes allowed before the pause
          stop, sdue, hard,     \* termination signals received, writes allowed after the first one; faults received
          broken,               \* an operation on the data file failed
          mayPause, mayGo,      \* a pause (a continuation) was requested since the file was opened (closed)
          code     \* exit status, or -1
vars == <<pc, file, wi, want, wdue, stop, sdue, hard, broken, mayPause, mayGo, code>>
NONE == 999
M == Bnd[Len(Bnd)]
Due(w) == IF w >= M THEN M ELSE Bnd[CHOOSE k \in 1..Len(Bnd) : Bnd[k] > w /\ \A j \in 1..(k - 1) : Bnd[j] <= w]
AtBnd == wi = 0 \/ \E k \in 1..Len(Bnd) : Bnd[k] = wi
TypeOK == /\ pc \in {"init", "run", "refused", "gone"} /\ file \in {"none", "open", "closed"} /\ wi \in 0..M /\ want \in BOOLEAN
          /\ stop \subseteq SOFT /\ hard \subseteq HARD /\ mayPause \in BOOLEAN /\ mayGo \in BOOLEAN
Init == /\ pc = "init" /\ file = "none" /\ wi = 0 /\ want = FALSE /\ wdue = 0 /\ stop = {} /\ sdue = 0 /\ hard = {} /\ broken = FALSE
        /\ mayPause = FALSE /\ mayGo = FALSE /\ code = NONE
ghost == <<want, wdue, stop, sdue, hard, broken>>
Alive == pc \in {"init", "run"}
\* the file is made; it must not exist
Create == pc = "init" /\ file = "none" /\ file' = "open" /\ UNCHANGED <<pc, wi, ghost, mayPause, mayGo, code>>
Refuse == pc = "init" /\ file = "none" /\ pc' = "refused" /\ UNCHANGED <<file, wi, ghost, mayPause, mayGo, code>>
Access == /\ Alive /\ file = "open" /\ hard = {}
          /\ (want => wi < wdue) /\ (stop # {} => wi < sdue)
Prepare == Access /\ wi < M /\ UNCHANGED vars        \* groups, datasets, metadata, room for frames
CanWrite == Access /\ wi < M
Write == CanWrite /\ wi' = wi + 1 /\ pc' = "run" /\ UNCHANGED <<file, ghost, mayPause, mayGo, code>>
CanClose == Alive /\ file = "open" /\ (hard # {} \/ broken \/ (AtBnd /\ (mayPause \/ stop # {} \/ wi = M)))
Close == /\ CanClose /\ file' = "closed" /\ mayPause' = FALSE /\ mayGo' = ~want /\ UNCHANGED <<pc, wi, ghost, code>>
Reopen == /\ Alive /\ file = "closed" /\ mayGo /\ hard = {}
          /\ file' = "open" /\ mayGo' = FALSE /\ UNCHANGED <<pc, wi, ghost, mayPause, code>>
\* the file is gone or unreadable at the moment of continuation
CannotReopen == Alive /\ file = "closed" /\ mayGo /\ pc' = "refused" /\ UNCHANGED <<file, wi, ghost, mayPause, mayGo, code>>
Usr1 == /\ want' = TRUE /\ wdue' = (IF want THEN wdue ELSE Due(wi)) /\ mayPause' = TRUE
        /\ UNCHANGED <<pc, file, wi, stop, sdue, hard, broken, mayGo, code>>
Usr2 == want' = FALSE /\ mayGo' = TRUE /\ UNCHANGED <<pc, file, wi, wdue, stop, sdue, hard, broken, mayPause, code>>
Stop(s) == /\ s \in SOFT /\ stop' = stop \cup {s} /\ sdue' = (IF stop = {} THEN Due(wi) ELSE sdue)
           /\ UNCHANGED <<pc, file, wi, want, wdue, hard, broken, mayPause, mayGo, code>>
Hard(s) == s \in HARD /\ hard' = hard \cup {s} /\ UNCHANGED <<pc, file, wi, want, wdue, stop, sdue, broken, mayPause, mayGo, code>>
\* an operation on the file fails (no space, no access): the run may go on only if nothing is lost by that
Fail == /\ Alive /\ broken' = TRUE
        /\ UNCHANGED <<pc, file, wi, want, wdue, stop, sdue, hard, mayPause, mayGo, code>>
Signal == code = NONE /\ (Usr1 \/ Usr2 \/ (\E s \in SOFT : Stop(s)) \/ (\E s \in HARD : Hard(s)))
Waiting == Alive /\ ~broken /\ file = "closed" /\ want /\ stop = {} /\ hard = {}
CanExit(c) ==
           /\ pc # "gone" /\ code = NONE /\ file # "open"
           /\ \/ c = 0 /\ pc = "run" /\ wi = M /\ file = "closed" /\ hard = {}
              \/ c \in stop /\ AtBnd
              \/ c \in hard
              \/ broken /\ c # 0
              \/ pc = "refused" /\ c # 0
Exit(c) == CanExit(c) /\ pc' = "gone" /\ code' = c /\ UNCHANGED <<file, wi, ghost, mayPause, mayGo>>
Next == Create \/ Refuse \/ Prepare \/ Write \/ Close \/ Reopen \/ CannotReopen \/ Fail \/ Signal \/ \E c \in {0, 6} \cup SOFT \cup HARD : Exit(c)
Spec == Init /\ [][Next]_vars
\* -- what follows from the rules -------------------------------------------
ClosedAtEnd == pc = "gone" => file # "open"
Complete == (pc = "gone" /\ hard = {} /\ ~broken) => AtBnd
Finished == code = 0 => wi = M
PausedInTime == (want /\ hard = {}) => (wi <= wdue \/ wi = M)
StoppedInTime == (stop # {} /\ hard = {}) => wi <= sdue
NeverFromScratch == [][file = "none" => file' \in {"none", "open"}]_vars
=============================================================================
