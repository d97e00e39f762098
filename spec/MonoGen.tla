------------------------------- MODULE MonoGen -------------------------------
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANT L
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Ops == {"diff", "vdiff", "elast", "nflux", "lf", "lfg", "temam", "temamg"}
Init == st = 0 /\ sc = <<>>
Pick == st = 0 /\ st' = 1 /\
  \E dim \in One({2, 2, 3}), gx \in One(1..2), gy \in One(1..2), n \in One(1..2), sx \in One(BOOLEAN), tu \in One(BOOLEAN), nc \in One(1..2), seed \in One(0..99999),
     sub \in One(BOOLEAN), cv \in One(BOOLEAN), k \in One(2..4), style \in One(0..3) :
    LET x == IF gx * gy = 1 THEN 2 ELSE gx
        y == IF dim = 3 /\ x = 2 THEN 1 ELSE gy
    IN  sc' = [dim |-> dim, gx |-> x, gy |-> y, gz |-> 1, n |-> IF dim = 3 /\ sx THEN 1 ELSE n, simplex |-> sx, turn |-> tu, nc |-> IF nc > x * y THEN x * y ELSE nc, seed |-> seed, ref |-> 0,
               sub |-> sub, k |-> k, style |-> style, curv |-> cv, ops |-> <<>>]
More == st \in 1..L /\ st' = st + 1 /\
  \E op \in One(Ops), o \in One(1..2), q \in One(0..2), bt \in One(0..1), seed \in One(0..9999) :
    sc' = [sc EXCEPT !.ops = Append(@, [op |-> op, o |-> o, q |-> q, bt |-> bt, seed |-> seed])]
Done == st = L + 1 /\ st' = L + 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Pick \/ More \/ Done]_<<st, sc>>
=============================================================================
