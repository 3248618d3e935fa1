--------------------------------- MODULE Mpi ---------------------------------
(* Point-to-point messages of processes 0..N-1 as MPI defines them: messages   *)
(* of one sender to one receiver stay in order, a receive takes the oldest,    *)
(* and a send may end at once (the library keeps the message) or wait until    *)
(* the message is taken - the program cannot know which.                       *)
EXTENDS Integers, Sequences, FiniteSets
Pairs(N) == (0..(N - 1)) \X (0..(N - 1))
EmptyBox(N) == [p \in Pairs(N) |-> <<>>]
Put(box, s, d, m) == [box EXCEPT ![<<s, d>>] = Append(@, m)]
CanTake(box, s, d) == box[<<s, d>>] # <<>>
Oldest(box, s, d) == Head(box[<<s, d>>])
Take(box, s, d) == [box EXCEPT ![<<s, d>>] = Tail(@)]
\* a sender that waits has sent nothing after the message it waits for
Taken(box, s, d) == box[<<s, d>>] = <<>>
=============================================================================
