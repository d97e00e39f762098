----------------------------- MODULE HyperForm -----------------------------
(* Hyper-reduced nonlinear forms.  A component form owns, for every integrator (type 0: elements,  *)
(* 1: interior faces, 2: boundary elements), a list of sampled quadrature points <<e, q, w>>; the    *)
(* interface form owns one per interface integrator and reference port (type 3).  Subdomain forms    *)
(* look at the lists of their component.  Lists are replaced by explicit sampling, by training or     *)
(* by loading what was saved; precomputation stores reduced coefficients of the points in force for   *)
(* the basis in force; a form evaluated slowly or fast is the weighted sum of its points.             *)
(* Weights are integers in units of 1/WU.                                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT WU
VARIABLES smp,     \* <<owner, type, k>> -> list of points
          disk,    \* <<slot, owner>> -> what was saved: lists by <<type, k>>
          basis,   \* component -> basis in force
          coef     \* <<owner, type, k>> -> bases the stored coefficients belong to
hv == <<smp, disk, basis, coef>>

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Keys(o) == {x \in DOMAIN smp : x[1] = o}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Comps(o) == o.c                     \* components whose bases the owner's points are projected on

\* ---- transitions
Sample(o, t, k, s) == /\ smp' = Put(smp, <<o, t, k>>, s) /\ coef' = Put(coef, <<o, t, k>>, <<>>)
                      /\ UNCHANGED <<disk, basis>>
SetBasis(c, b) == /\ basis' = Put(basis, c, b) /\ UNCHANGED <<smp, disk, coef>>
Save(slot, o) == /\ disk' = Put(disk, <<slot, o>>, [x \in {<<y[2], y[3]>> : y \in Keys(o)} |-> smp[<<o, x[1], x[2]>>]])
                 /\ UNCHANGED <<smp, basis, coef>>
Load(slot, o) == /\ <<slot, o>> \in DOMAIN disk
                 /\ LET d == disk[<<slot, o>>] mine == {<<o, x[1], x[2]>> : x \in DOMAIN d}
                    IN /\ smp' = [y \in DOMAIN smp \cup mine |-> IF y \in mine THEN d[<<y[2], y[3]>>] ELSE smp[y]]
                       /\ coef' = [y \in DOMAIN coef \cup mine |-> IF y \in mine THEN <<>> ELSE coef[y]]
                 /\ UNCHANGED <<disk, basis>>
Stamp(o) == [i \in 1..Len(Comps(o)) |-> basis[Comps(o)[i]]]
Precompute == /\ coef' = [y \in DOMAIN smp |-> Stamp(y[1])] /\ UNCHANGED <<smp, disk, basis>>
Ready(o) == \A y \in Keys(o) : coef[y] = Stamp(o)

\* ---- meaning: tab[e+1][q+1][j] is the contribution of point q of e, with weight one, to output j
Has(tab, p) == p[1] + 1 \in 1..Len(tab) /\ (IF p[1] + 1 \in 1..Len(tab) THEN p[2] + 1 \in 1..Len(tab[p[1] + 1]) ELSE FALSE)
Points(tab, s, j) == Sum([i \in 1..Len(s) |-> s[i][3] * tab[s[i][1] + 1][s[i][2] + 1][j]])
\* rounding: half a unit of every table entry, half a unit of every weight that is not a multiple of 1/WU
Slack(tab, s, j) == Sum([i \in 1..Len(s) |-> 1 + Abs(s[i][3]) \div 2 + (IF s[i][4] = 1 THEN 1 + Abs(tab[s[i][1] + 1][s[i][2] + 1][j]) \div 2 ELSE 0)])

\* ---- what training promises: positive weights at distinct existing points that reproduce what the whole
\* rule gives on the training states, within the tolerance (per entry, or in norm), tol in units of 1/TU
TU == 100
Distinct(s) == \A i, j \in 1..Len(s) : i # j => <<s[i][1], s[i][2]>> # <<s[j][1], s[j][2]>>
=============================================================================
