------------------------------- MODULE Config --------------------------------
(* Reading of a configuration: what is refused, and what the run is built of.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MAXN, NAMES, IDS

Cut(n, d) == d = 1 \/ (d >= 2 /\ d % 2 = 0)
\* equal domains only
GridOK(n, d) == n >= 1 /\ Cut(n, d) /\ d <= n /\ n % d = 0
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
\* names in the data: a beam is called beam_<name>
AllNames(sp, beams) == sp \o [i \in DOMAIN beams |-> "beam_" \o beams[i]]
\* a probe is [shape, d, sch (in thousandths of a step), path]
Shapes == {"rec", "col", "row", "dot"}
InArea(p, nr, nz) == CASE p.shape = "rec" -> p.d[1] >= 0 /\ p.d[2] >= 0 /\ p.d[1] <= p.d[3] /\ p.d[2] <= p.d[4] /\ p.d[3] <= nr /\ p.d[4] <= nz
                       [] p.shape = "col" -> p.d[4] >= 0 /\ p.d[4] <= nz
                       [] p.shape = "row" -> p.d[3] >= 0 /\ p.d[3] <= nr
                       [] p.shape = "dot" -> p.d[3] >= 0 /\ p.d[3] <= nr /\ p.d[4] >= 0 /\ p.d[4] <= nz
                       [] OTHER -> FALSE
ProbeOK(p, nr, nz) == p.shape \in Shapes /\ p.sch >= 1000 /\ InArea(p, nr, nz)
\* a number is [o: what it is for, s: its sign, whole, big: above the upper limit (1 for the share of a layer, the speed of
\* light, 2^31 - 1 for whole numbers and the amount of macroparticles)]
Positive == {"size", "step", "length", "radius", "velocity", "grid", "mass", "schedule"}
AnySign == {"domains", "charge"}
Whole == {"grid", "mass", "schedule", "domains", "charge", "ratio", "amount", "place"}
Limited == Whole \cup {"layer", "velocity", "macro"}
ValueOK(v) == /\ v.o \in Positive => v.s = 1
              /\ v.o \notin AnySign => v.s >= 0
              /\ v.o \in Whole => v.whole
              /\ v.o \in Limited => ~v.big
HasElectrons(sp, m1) == \E i \in DOMAIN sp : sp[i] \in {"electrons", "Electrons", "electron", "Electron"} \/ m1[i]
HasIons(sp) == \E i \in DOMAIN sp : sp[i] \in {"ions", "Ions", "ion", "Ion"}

\* ---- macroparticles: macro of them are shared by claims (whole numbers of 1/1000 cells, rounded), each gets the whole part of its share
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
ShareOK(macro, total, claim, got) == LET slack == (total \div 50) + macro IN
    got * total <= (macro * claim) + slack /\ macro * claim < ((got + 1) * total) + slack

\* ---- the loader: gives ids to names one after another; names may share a hash
VARIABLES nr, nz, rd, zd, names, hash, ids, out
cvars == <<nr, nz, rd, zd, names, hash, ids, out>>
CInit == /\ nr \in 1..MAXN /\ nz \in 1..MAXN /\ rd \in 0..4 /\ zd \in 0..4
         /\ names \in UNION {[1..k -> 1..NAMES] : k \in 1..3} /\ hash \in [1..NAMES -> 0..(IDS - 1)]
         /\ ids = <<>> /\ out = "reading"
RECURSIVE Free(_)
Free(i) == IF \E k \in DOMAIN ids : ids[k] = i THEN Free((i + 1) % IDS) ELSE i
Read == /\ out = "reading" /\ Len(ids) < Len(names)
        /\ IF \E k \in 1..Len(ids) : names[k] = names[Len(ids) + 1] THEN out' = "refused" /\ UNCHANGED ids
           ELSE ids' = Append(ids, Free(hash[names[Len(ids) + 1]])) /\ UNCHANGED out
        /\ UNCHANGED <<nr, nz, rd, zd, names, hash>>
Finish == /\ out = "reading" /\ Len(ids) = Len(names)
          /\ out' = IF GridOK(nr, rd) /\ GridOK(nz, zd) THEN "run" ELSE "refused"
          /\ UNCHANGED <<nr, nz, rd, zd, names, hash, ids>>
CNext == Read \/ Finish
CSpec == CInit /\ [][CNext]_cvars
OwnId == Distinct(ids)
Edge(n, d, i) == (n * i) \div d
\* in a run every cell belongs to one domain, and the domains are equal
Tiled == out = "run" => \A x \in {<<nr, rd>>, <<nz, zd>>} :
            /\ \A q \in 0..(x[1] - 1) : Cardinality({i \in 0..(x[2] - 1) : Edge(x[1], x[2], i) <= q /\ q < Edge(x[1], x[2], i + 1)}) = 1
            /\ \A i \in 0..(x[2] - 1) : Edge(x[1], x[2], i + 1) - Edge(x[1], x[2], i) = x[1] \div x[2]
NamesApart == out = "run" => Distinct(names)
\* only what cannot be cut evenly, or names twice, is refused
NotTooStrict == out = "refused" => ~Distinct(names) \/ ~GridOK(nr, rd) \/ ~GridOK(nz, zd)
=============================================================================
