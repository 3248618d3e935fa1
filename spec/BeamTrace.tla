------------------------------ MODULE BeamTrace ------------------------------
(* Beam particles recorded after every call of the injection, per row of domains. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Q, ROWS, BUNCHES, LENS, GAPS, STARTS, STEPS
VARIABLES s, ln, gap, n, now, cur, sent
INSTANCE Beam
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cf, tot, low
tvars == <<s, ln, gap, n, now, cur, sent, l, cf, tot, low>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
TInit == l = 1 /\ cf = 0 /\ s = 0 /\ ln = 0 /\ gap = 0 /\ n = 0 /\ now = 0 /\ cur = 0 /\ sent = 0 /\ tot = 0 /\ low = 0
\* a beam: start, length, gap, bunches; width of every row of domains (cells of the beam that lie in it); macroparticles
World == /\ Is("world") /\ cf' = E /\ s' = E.s /\ ln' = E.ln /\ gap' = E.gap /\ n' = E.n /\ now' = E.from
         /\ sent' = 0 /\ cur' = 0 /\ tot' = [r \in 1..Len(E.rows) |-> 0] /\ low' = [r \in 1..Len(E.rows) |-> 0]
Here(r) == <<"beam", cf.name, "step", now \div Q, "row", r>>
Row(r, g) == LET on == Bunch(s, ln, gap, n, now) >= 0 /\ cf.rows[r] > 0 IN
  /\ Say(on \/ g.n = 0, <<Here(r), "injects", g.n, "particles outside of every bunch">>)
  /\ Say(g.other = 0, <<Here(r), "injects particles which are not of this beam or not at rest across it", g.other>>)
  /\ g.n > 0 =>
      \* from half a cell above the lower border of the row, as far as the beam reaches in it
      /\ Say(g.rmin >= cf.off[r] * 1000 + 499 /\ g.rmax <= cf.off[r] * 1000 + 501 + cf.rows[r], <<Here(r), "radius of particles out of the beam", g.rmin, g.rmax>>)
      /\ Say(g.zmin >= 499 /\ g.zmax <= 501 + cf.dl, <<Here(r), "particles out of the way of a step", g.zmin, g.zmax>>)
      \* weight proportional to the radius, the same factor everywhere
      /\ Say(g.wmin >= 999900 /\ g.wmax <= 1000100, <<Here(r), "weight over radius (ppm)", g.wmin, g.wmax>>)
      /\ Say(g.cells, <<Here(r), "cell numbers do not fit the position">>)
\* n particles so far: the share of the row, of every step of every bunch begun, never ahead or behind by more than one particle (and one for rounding), whatever the number of bunches
Count(r, t2) == LET m == Cardinality({t \in Active(s, ln, gap, n, now + Q) : t >= cf.from}) IN
  \* t2 * (n * radius * ln/Q)  ~  m * macro * rows[r]     (milli-cells), per mille of a particle
  LET want == IF cf.rows[r] = 0 THEN 0 ELSE (m * cf.per[r]) \div 1000 IN
  Say(t2 - want <= 2 /\ want - t2 <= 2, <<Here(r), "has injected", t2, "particles, expected", want>>)
Step == /\ Is("step") /\ UNCHANGED <<cf, s, ln, gap, n, cur, sent>> /\ Say(E.t = now, "time")
        /\ Say(E.stray = 0, <<"step", now \div Q, E.stray, "particles injected away from the left wall">>)
        /\ \A r \in 1..Len(cf.rows) : Row(r, E.rows[r])
        /\ tot' = [r \in 1..Len(cf.rows) |-> tot[r] + E.rows[r].n]
        /\ low' = [r \in 1..Len(cf.rows) |-> low[r] + E.rows[r].low]
        /\ \A r \in 1..Len(cf.rows) : Count(r, tot'[r])
        /\ now' = now + Q
\* spread evenly: halves of the beam, halves of the step (six deviations)
Even(a, b) == (2 * a - b) * (2 * a - b) <= 36 * b + 64
End == /\ Is("end") /\ UNCHANGED <<cf, s, ln, gap, n, cur, sent, now, tot, low>>
       /\ \A r \in 1..Len(cf.rows) : Say(Even(low[r], tot[r]), <<Here(r), "lower half of the beam got", low[r], "of", tot[r]>>) /\ Say(Even(E.near[r], tot[r]), <<Here(r), "near half of the step got", E.near[r], "of", tot[r]>>)
TNext == World \/ Step \/ End
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
