------------------------------ MODULE Migrate -------------------------------
(* Particles move, then the collector gives each one to the domain that owns  *)
(* its cell and drops those outside.  The collector is four passes over the   *)
(* domains of one parity; inside a pass the domains are handled concurrently, *)
(* here in any order, one domain's sweep being one step.                      *)
EXTENDS Geom
CONSTANTS NR, NZ, RD, ZD, Part, MaxRounds, Margin

G == [nr |-> NR, nz |-> NZ, rd |-> RD, zd |-> ZD, u |-> 1]

Targets == ((-Margin)..(NR + Margin - 1)) \X ((-Margin)..(NZ + Margin - 1))

VARIABLES pos,      \* particle -> position
          home,     \* particle -> domain holding it, or NOWHERE
          pass,     \* 0 : particles move;  1..4 : collector pass
          todo,     \* domains still to be swept in this pass
          rounds,
          before    \* homes when the collector started
vars == <<pos, home, pass, todo, rounds, before>>

Dest(g, p, h) == IF h = NOWHERE THEN NOWHERE ELSE Owner(g, CellAt(g, p))
Collected(g, ps, hs) == [p \in DOMAIN hs |-> Dest(g, ps[p], hs[p])]

Parity(k) == CASE k = 1 -> <<0, 0>> [] k = 2 -> <<0, 1>> [] k = 3 -> <<1, 0>> [] k = 4 -> <<1, 1>>
InPass(k) == {d \in Domains(G) : d[1] % 2 = Parity(k)[1] /\ d[2] % 2 = Parity(k)[2]}

TypeOK == /\ pos \in [Part -> Targets]
          /\ home \in [Part -> Domains(G) \cup {NOWHERE}]
          /\ pass \in 0..4 /\ todo \subseteq Domains(G)

Init == /\ pos \in [Part -> {t \in Targets : Inside(G, t)}]
        /\ home = [p \in Part |-> Owner(G, pos[p])]
        /\ pass = 0 /\ todo = {} /\ rounds = 0 /\ before = home

Move(p, t) == /\ pass = 0 /\ rounds < MaxRounds /\ home[p] # NOWHERE
              /\ pos' = [pos EXCEPT ![p] = t]
              /\ UNCHANGED <<home, pass, todo, rounds, before>>
Begin == /\ pass = 0 /\ rounds < MaxRounds
         /\ pass' = 1 /\ todo' = InPass(1) /\ before' = home
         /\ UNCHANGED <<pos, home, rounds>>
Sweep(d) == /\ d \in todo
            /\ home' = [p \in Part |-> IF home[p] = d THEN Dest(G, pos[p], d) ELSE home[p]]
            /\ todo' = todo \ {d}
            /\ UNCHANGED <<pos, pass, rounds, before>>
NextPass == /\ pass \in 1..4 /\ todo = {}
            /\ IF pass < 4 THEN pass' = pass + 1 /\ todo' = InPass(pass + 1) /\ rounds' = rounds
                           ELSE pass' = 0 /\ todo' = {} /\ rounds' = rounds + 1
            /\ UNCHANGED <<pos, home, before>>

Next == \/ \E p \in Part, t \in Targets : Move(p, t)
        \/ Begin \/ NextPass \/ \E d \in Domains(G) : Sweep(d)
Spec == Init /\ [][Next]_vars

\* after the collector every particle is where its cell says, whatever the order of the sweeps
Ends == [][(pass = 4 /\ pass' = 0) => home' = Collected(G, pos', before)]_vars
Settled == pass = 0 /\ rounds > 0 =>
             \A p \in Part : home[p] # NOWHERE => home[p] \in Domains(G)
OnlyOutsideDropped == [][\A p \in Part : home[p] # NOWHERE /\ home'[p] = NOWHERE => ~Inside(G, CellAt(G, pos[p]))]_vars
NeverReturns == [][\A p \in Part : home[p] = NOWHERE => home'[p] = NOWHERE]_vars
ASSUME Divisible(G) => Partition(G)
=============================================================================
