------------------------------ MODULE StepTrace ------------------------------
(* Whole steps of the real program.  "step": fields before and after, H and J *)
(* of the step before, in common units (2e5 the largest), flux of eps0 E       *)
(* through the faces of the nodes and charge of the particles at the end of    *)
(* the step before (1e-5 of the charge of a macroparticle); "plasma": counts.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS N, U, STEPS, NR, NZ, ZF
VARIABLES n, phase
Y == INSTANCE Yee
VARIABLES pos, node, t, f, j, base
ST == INSTANCE Step
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
tvars == <<n, phase, pos, node, t, f, j, base, l, g>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Say(cond, what) == IF cond THEN TRUE ELSE Print(<<"VIOLATED", what>>, FALSE)
Abs(x) == IF x < 0 THEN -x ELSE x
Keep == UNCHANGED <<phase, pos, node, t, f, j>>
TInit == l = 1 /\ n = -1 /\ phase = 0 /\ pos = 0 /\ node = 0 /\ t = 0 /\ f = 0 /\ j = 0 /\ base = <<>> /\ g = [nr |-> 0]
Get(F, c, i, k) == Y!Get(F, c, g.nr, g.nz, i, k)
M(a, i, k) == IF i \in 0..(g.nr - 1) /\ k \in 0..(g.nz - 1) THEN a[i + 1][k + 1] ELSE 0
\* the first sight of a run: nothing happened to the fields yet, the whole plasma is there
Run == Is("run") /\ n' = -1 /\ base' = <<>> /\ g' = [nr |-> 0, closed |-> E.closed] /\ Keep
Plasma == /\ Is("plasma") /\ E.n = n + 1 /\ n' = E.n
          /\ IF E.n = 0 THEN /\ g' = [nr |-> E.nr, nz |-> E.nz, zf |-> E.zf, kmin |-> E.kmin, cnt |-> E.cnt, w |-> E.w, closed |-> g.closed]
                             /\ Say(E.silent, "the fields of the first step come from nowhere")
                        ELSE g' = g
          /\ Say(E.lost = 0 /\ E.twice = 0 /\ E.nan = 0, <<"particles outside of their domain, held twice, without a place", E.lost, E.twice, E.nan>>)
          /\ Say(g'.closed => ST!Whole(g', E), <<"amount of the plasma", E.cnt, g'.cnt>>)
          /\ UNCHANGED base /\ Keep
EStep(c, i, k) == LET m == Y!MulE(c, i)  e1 == Get(E.e1, c, i, k)  e0 == Get(E.e0, c, i, k) IN
  IF ~Y!Inside(c, g.nr, g.nz, i, k) THEN Say(e1 = 0, <<"field on or behind the metal", c, i, k>>)
  ELSE IF M(E.s, i, k) # 0 THEN TRUE ELSE Say(Abs(m * (e1 - e0 + Get(E.j, c, i, k)) - Y!CurlH(E.h0, c, g.nr, g.nz, g.zf, i, k)) <= (4 * m) + (4 * g.zf) + 6,
                             <<"E", c, i, k, m * (e1 - e0 + Get(E.j, c, i, k)), Y!CurlH(E.h0, c, g.nr, g.nz, g.zf, i, k)>>)
HStep(c, i, k) == LET m == Y!MulH(c, i)  hd == Get(E.hd, c, i, k)  w == Y!MCurlE(E.e1, c, g.nr, g.nz, g.zf, i, k) IN
  IF i >= g.nr - 1 \/ k >= g.nz - 1 THEN TRUE
  ELSE Say(Abs(m * hd - w) <= (3 * m) + (3 * g.zf) + 6 + (Abs(w) \div 1000), <<"H", c, i, k, m * hd, w>>)
Gauss(i, k) == M(E.fr, i, k) - M(E.fr, i - 1, k) + M(E.fz, i, k) - M(E.fz, i, k - 1) - M(E.q, i, k)
Nodes == (0..(g.nr - 2)) \X (g.kmin..(g.nz - 2))
Free(x) == \A a \in {x[1] - 1, x[1]}, b \in {x[2] - 1, x[2]} : M(E.s, a, b) = 0
Step == /\ Is("step") /\ E.n = n + 1 /\ n' = n
        /\ IF \A c \in 1..3, i \in 0..(g.nr - 1), k \in 0..(g.nz - 1) : EStep(c, i, k) /\ HStep(c, i, k) THEN TRUE ELSE FALSE
        /\ LET now == [x \in Nodes |-> Gauss(x[1], x[2])] IN
             IF base = <<>> THEN base' = now
             ELSE /\ base' = base
                  /\ IF \A x \in Nodes : Free(x) => Say(Abs(now[x] - base[x]) <= 8, <<"Gauss's law at the node", x, "by", now[x] - base[x]>>) THEN TRUE ELSE FALSE
        /\ UNCHANGED g /\ Keep
End == Is("end") /\ Say(E.rc = 0 /\ E.n = E.steps, <<"the run ends as it should", E.rc, E.n>>) /\ UNCHANGED <<n, g, base>> /\ Keep
TNext == Run \/ Plasma \/ Step \/ End
TraceSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
   IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
=============================================================================
