------------------------------ MODULE WeakGen ------------------------------
(* Random integrators, domains, arguments and sequences of evaluations. *)
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANTS L, Ops, Integs, Law
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>>
Pick == st = 0 /\ st' = 1 /\
  \E integ \in One(Integs), d \in One(1..6), gx \in One(1..2), gy \in One(1..2), g \in One(1..3), n \in One(1..2), sx \in One(BOOLEAN), tu \in One(BOOLEAN), nc \in One(1..2), seed \in One(0..99999),
     sub \in One(BOOLEAN), k \in One(2..4), style \in One(0..3), ud \in One(0..2), q \in One(0..1) :
    LET dim == IF d = 1 THEN 1 ELSE IF d < 5 THEN 2 ELSE 3
        z == IF dim = 3 /\ g = 3 THEN 2 ELSE 1          \* two cells above each other
        x == IF z = 2 THEN 1 ELSE IF gx * gy = 1 THEN 2 ELSE gx
        y == IF z = 2 \/ (dim = 3 /\ x = 2) THEN 1 ELSE gy
    IN  sc' = [integ |-> integ, dim |-> dim, gx |-> x, gy |-> y, gz |-> z, n |-> IF dim = 3 /\ sx THEN 1 ELSE n, simplex |-> sx, turn |-> tu, nc |-> IF nc > x * y * z THEN x * y * z ELSE nc, seed |-> seed, ref |-> 0,
               sub |-> sub, k |-> k, style |-> style, ud |-> IF Law THEN 0 ELSE ud, q |-> IF Law THEN 0 ELSE q, law |-> Law, ops |-> <<>>]
More == st \in 1..L /\ st' = st + 1 /\
  \E op \in One(Ops), kind \in One(1..3), o \in One(1..2), h1 \in One(BOOLEAN), state \in One(0..4), seed \in One(0..9999) :
    sc' = [sc EXCEPT !.ops = Append(@, [op |-> IF st = 1 THEN "arg" ELSE op, kind |-> kind, o |-> o, h1 |-> h1, state |-> state, seed |-> seed])]
Done == st = L + 1 /\ st' = L + 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Pick \/ More \/ Done]_<<st, sc>>
=============================================================================
