---------------------------- MODULE HyperFormMC ----------------------------
(* Two components joined by one port, two bases each, one point table per basis; every order of     *)
(* sampling, saving, loading, changing bases and precomputing.  The fast value of a form uses the     *)
(* coefficients stored with the points.                                                               *)
EXTENDS HyperForm, TLC
R(c) == [k |-> "R", c |-> <<c>>]
F == [k |-> "F", c |-> <<1, 2>>]
Owners == {R(1), R(2), F}
\* contribution of point p of the owner with the given bases
Val(o, bs, p) == IF o.k = "R" THEN (3 * p[1] + p[2] + 1) * (2 * bs[1] - 1) + o.c[1] ELSE (p[1] + 2 * p[2] + 1) * bs[1] - 5 * bs[2]
Slow(o) == LET S(y) == Sum([i \in 1..Len(smp[y]) |-> smp[y][i][3] * Val(o, Stamp(o), smp[y][i])])
           IN {<<y, S(y)>> : y \in Keys(o)}
Fast(o) == LET S(y) == Sum([i \in 1..Len(smp[y]) |-> smp[y][i][3] * Val(o, coef[y], smp[y][i])])
           IN {<<y, S(y)>> : y \in Keys(o)}
CONSTANT Big
Lists == {<<>>, << <<1, 0, 1, 0>>, <<0, 1, 3, 0>> >>} \cup (IF Big THEN {<< <<0, 1, 2, 0>> >>} ELSE {})
Types(o) == IF o.k = "R" THEN {0, 2} ELSE {3}
Init == /\ smp = [y \in UNION {{<<o, t, 0>> : t \in Types(o)} : o \in Owners} |-> <<>>] /\ disk = <<>> /\ basis = [c \in 1..2 |-> 1]
        /\ coef = [y \in UNION {{<<o, t, 0>> : t \in Types(o)} : o \in Owners} |-> <<>>]
Next == \/ \E o \in {R(1), F} : \/ \E t \in Types(o), s \in Lists : Sample(o, t, 0, s)
                                \/ Save(1, o)
                                \/ Load(1, o)
        \/ \E c \in 1..2, b \in 1..2 : SetBasis(c, b)
        \/ Precompute
Spec == Init /\ [][Next]_hv
FastIsSlow == \A o \in Owners : Ready(o) => Fast(o) = Slow(o)
\* sampling or loading one owner leaves the others, and everything on disk, alone
Local == [][\A o \in Owners : (\E y \in Keys(o) : smp'[y] # smp[y]) => \A p \in Owners \ {o} : \A y \in Keys(p) : smp'[y] = smp[y]]_hv
Restores == [][\A o \in Owners : Load(1, o) => \A y \in Keys(o) : smp'[y] = disk[<<1, o>>][<<y[2], y[3]>>]]_hv
\* precomputing makes everything ready; afterwards only that, or nothing relevant happening, keeps it
PreReady == [][Precompute => \A o \in Owners : \A y \in Keys(o) : coef'[y] = Stamp(o)]_hv
Stale == [][\A o \in Owners : (\E y \in Keys(o) : smp'[y] # smp[y]) => ~(\A y \in Keys(o) : coef'[y] = Stamp(o)')]_hv
=============================================================================
