------------------------------ MODULE MixedGen ------------------------------
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANT L
VARIABLES st, sc, nf
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>> /\ nf = 1
Pick == st = 0 /\ st' = 1 /\ UNCHANGED nf /\
  \E dim \in One({2, 2, 2, 3}), nx \in One(1..2), ny \in One(1..2), sx \in One(BOOLEAN), nb \in One(1..4), seed \in One(0..99999),
     o1 \in One(0..1), o2 \in One(0..1), v1 \in One(1..2), v2 \in One(1..2), b1 \in One(BOOLEAN), b2 \in One(BOOLEAN), k \in One(1..3) :
    sc' = [dim |-> dim, nx |-> IF dim = 3 THEN 2 ELSE nx, ny |-> IF dim = 3 THEN 1 ELSE ny, simplex |-> sx /\ dim = 2, nb |-> nb, seed |-> seed,
           o1 |-> IF dim = 3 THEN 0 ELSE o1, o2 |-> IF dim = 3 THEN 0 ELSE o2, v1 |-> v1, v2 |-> v2, b1 |-> b1, b2 |-> b2, ops |-> <<>>]
More == st \in 1..L /\ st' = st + 1 /\
  \E w \in One({"dom", "int", "int", "bdr", "mark", "mark", "mark", "copy", "new"}), f \in One(1..nf), k \in One(1..9), m \in One(SUBSET (1..sc.nb)), sk \in One(0..1) :
    LET v == IF w \in {"copy", "new"} /\ nf >= 3 THEN "int" ELSE w IN
    /\ nf' = IF v \in {"copy", "new"} THEN nf + 1 ELSE nf
    /\ sc' = [sc EXCEPT !.ops = Append(@, [op |-> v, f |-> f, k |-> k, skip |-> sk, m |-> [a \in 1..sc.nb |-> IF a \in m THEN 1 ELSE 0]])]
Done == st = L + 1 /\ st' = L + 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED <<sc, nf>>
Spec == Init /\ [][Pick \/ More \/ Done]_<<st, sc, nf>>
=============================================================================
