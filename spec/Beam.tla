-------------------------------- MODULE Beam --------------------------------
(* Schedule of the bunches of a beam.  Time is counted in quarters of a step   *)
(* (Q per step); lengths in the way the beam flies in a quarter of a step.     *)
(* Rows of domains along the left wall inject independently.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Q, ROWS, BUNCHES, LENS, GAPS, STARTS, STEPS

\* bunch k (from 0) passes the left wall during this window
From(s, ln, gap, k) == s + k * (ln + gap)
Within(s, ln, gap, k, now) == From(s, ln, gap, k) <= now /\ now < From(s, ln, gap, k) + ln
\* bunch which is injected at this time, or -1
Bunch(s, ln, gap, n, now) == IF \E k \in 0..(n - 1) : Within(s, ln, gap, k, now) THEN CHOOSE k \in 0..(n - 1) : Within(s, ln, gap, k, now) ELSE -1
\* number of steps (times 0, Q, 2Q, ..., below now) at which something is injected
Active(s, ln, gap, n, now) == {t \in {Q * x : x \in 0..(now \div Q)} : t < now /\ Bunch(s, ln, gap, n, t) >= 0}

(* ---- the beam as a machine: every row keeps its own number of the current bunch ---- *)
VARIABLES s, ln, gap, n, now, cur, sent
bvars == <<s, ln, gap, n, now, cur, sent>>
BInit == /\ s \in STARTS /\ ln \in LENS /\ gap \in GAPS /\ n \in 1..BUNCHES /\ now = 0
         /\ cur = [r \in 1..ROWS |-> 0] /\ sent = [r \in 1..ROWS |-> [k \in 1..BUNCHES |-> 0]]
\* pass over bunches that have ended by now
RECURSIVE Pass(_)
Pass(k) == IF k < n /\ now >= From(s, ln, gap, k) + ln THEN Pass(k + 1) ELSE k
BStep == /\ now < Q * STEPS /\ now' = now + Q
         /\ cur' = [r \in 1..ROWS |-> Pass(cur[r])]
         /\ sent' = [r \in 1..ROWS |-> [k \in 1..BUNCHES |-> sent[r][k] + IF k - 1 = cur'[r] /\ cur'[r] < n /\ Within(s, ln, gap, k - 1, now) THEN 1 ELSE 0]]
         /\ UNCHANGED <<s, ln, gap, n>>
BSpec == BInit /\ [][BStep]_bvars
\* every row injects at every step of the window of every bunch, and at no other
AllSent == \A r \in 1..ROWS, k \in 1..BUNCHES :
  LET win == {t \in {Q * x : x \in 0..(now \div Q)} : t < now /\ k <= n /\ Within(s, ln, gap, k - 1, t)} IN sent[r][k] = Cardinality(win)
\* rows agree
Together == \A r1, r2 \in 1..ROWS : cur[r1] = cur[r2]
\* windows of different bunches are apart
Apart == \A k1, k2 \in 0..(n - 1) : k1 # k2 => ~(Within(s, ln, gap, k1, now) /\ Within(s, ln, gap, k2, now))
\* a whole number of steps fits: every bunch is as long as the first
Equal == (ln % Q = 0 /\ gap % Q = 0 /\ now >= From(s, ln, gap, n - 1) + ln + Q) => \A k \in 1..n : sent[1][k] = sent[1][1] /\ sent[1][k] = ln \div Q
=============================================================================
