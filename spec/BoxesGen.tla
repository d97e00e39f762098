----------------------------- MODULE BoxesGen -----------------------------
(* Random requests to the mesh utilities. *)
EXTENDS Naturals, Sequences, TLC, Json, Randomization
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>>
\* cells in one direction: k per subdomain, at least three when periodic before refinement, sometimes not divisible
Cnt(d, k, per, bad) == IF bad /\ d > 1 THEN d + 1 ELSE IF per /\ d * k < 3 THEN 3 * d ELSE d * k
Pick == st = 0 /\ st' = 1 /\
  \E tool \in One(1..4), d1 \in One(1..3), d2 \in One(1..2), d3 \in One(1..2), k1 \in One(1..2), k2 \in One(1..2), k3 \in One(1..2),
     pm \in One(BOOLEAN), dir \in One(0..3), bad \in One(0..11), rs \in One(0..1), sx \in One(BOOLEAN), o \in One(1..3), len \in One(0..3), name \in One(0..2), seed \in One(0..99999), odd \in One(0..11) :
    LET dir2 == IF tool = 2 /\ dir = 3 THEN 2 ELSE dir
        P(i) == pm /\ (CASE tool = 1 -> i = 1 [] tool = 2 -> dir2 = 2 \/ dir2 = i - 1 [] OTHER -> dir2 = 3 \/ dir2 = i - 1)
        D(i) == IF tool = 1 THEN 1 ELSE IF i = 1 THEN d1 ELSE IF i = 2 THEN d2 ELSE d3
        K(i) == IF i = 1 THEN k1 ELSE IF i = 2 THEN k2 ELSE k3
        dim == IF tool = 4 THEN 3 ELSE tool
        n == [i \in 1..(IF dim > 3 THEN 3 ELSE dim) |-> Cnt(D(i), K(i), P(i), bad = 0 /\ i = 1)]
        big == dim = 3 /\ n[1] * n[2] * n[3] > 8
    IN  sc' = [tool |-> tool, n |-> n, d |-> [i \in 1..Len(n) |-> D(i)], per |-> [i \in 1..Len(n) |-> P(i)], pm |-> pm, dir |-> dir2,
               rs |-> IF big \/ (\E i \in 1..Len(n) : n[i] > 4) THEN 0 ELSE rs, simplex |-> sx /\ dim > 1, order |-> IF tool = 1 THEN 1 ELSE o, len |-> len, name |-> name, seed |-> seed, odd |-> IF tool \in 2..3 THEN odd ELSE 9]
Done == st = 1 /\ st' = 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Pick \/ Done]_<<st, sc>>
===========================================================================
