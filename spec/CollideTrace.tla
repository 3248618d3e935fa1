---------------------------- MODULE CollideTrace ----------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS NE, NI, KICK
VARIABLES ne, ni, mom, todo, met
INSTANCE Collide
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w
tvars == <<ne, ni, mom, todo, met, l, w>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Idle == UNCHANGED <<ne, ni, mom, todo, met>>
Say(c, what) == IF c THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
Abs(x) == IF x < 0 THEN -x ELSE x
TInit == l = 1 /\ w = [each |-> FALSE, pair |-> FALSE] /\ ne = 0 /\ ni = 0 /\ mom = 0 /\ todo = 0 /\ met = 0
\* each: electrons and ions keep their own momentum and energy (TA77S); pair: every meeting keeps both (SK98, P12)
World == Is("world") /\ w' = [each |-> E.each, pair |-> E.pair] /\ Idle
\* sums in 1e-9 of the particles' own momentum and energy
TOL == 1000
Cell == /\ Is("cell")
        /\ Say(E.kept, "a collision changed more than velocities")
        /\ Say(w.pair => E.dp <= TOL, "momentum of the cell")
        /\ Say(w.pair => E.de <= TOL, "energy of the cell")
        /\ Say(w.each /\ (E.ne >= 3 /\ E.ni >= 3) => (E.dps[1] <= TOL /\ E.dps[2] <= TOL), "momentum of electrons and of ions")
        /\ Say(w.each /\ (E.ne >= 3 /\ E.ni >= 3) => (E.des[1] <= TOL /\ E.des[2] <= TOL), "energy of electrons and of ions")
        /\ Say(w.pair /\ TakesPart(E.ne, E.ni) => (E.ce = E.ne /\ E.ci = E.ni), "a particle was left out")
        /\ Say(~MayChange(E.ne, E.ni) => (E.ce = 0 /\ E.ci = 0), "a particle alone in its cell was changed")
        /\ UNCHANGED w /\ Idle
\* mean deflection of the electrons, in 1e-6: as the theory gives it, within tol / 1000 (six standard
\* deviations); meetings with heavy ions or in their own centre of mass keep their speed
Rate == /\ Is("rate") /\ Say(1000 * Abs(E.got - E.want) <= E.tol * E.want, <<"rate", E.got, E.want>>)
        /\ ("speed" \in DOMAIN E => Say(E.speed <= 20000, "the electrons became faster or slower, too"))
        /\ UNCHANGED w /\ Idle
TNext == World \/ Cell \/ Rate
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
