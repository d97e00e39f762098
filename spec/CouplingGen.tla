----------------------------- MODULE CouplingGen -----------------------------
(* Random assemblies, finite element spaces and sequences of operations on an interface form. *)
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANT L
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Ops == {"add", "mats", "grad", "mult", "port", "fresh"}
Init == st = 0 /\ sc = <<>>
Pick == st = 0 /\ st' = 1 /\
  \E dim \in One({2, 2, 3}), gx \in One(1..2), gy \in One(1..2), g \in One(1..3), n \in One(1..2), sx \in One(BOOLEAN), tu \in One(BOOLEAN), nc \in One(1..2), seed \in One(0..99999),
     h1 \in One(BOOLEAN), o \in One(1..2), vd \in One(1..2), bv \in One(BOOLEAN), to \in One(1..2), tv \in One(1..2), mix \in One({TRUE, FALSE, FALSE}), sub \in One({TRUE, FALSE}),
     k \in One(2..4), style \in One(0..3) :
    LET big == dim = 3 /\ ~sub
        z == IF dim = 3 /\ g = 3 THEN 2 ELSE 1          \* two cells above each other
        x == IF z = 2 THEN 1 ELSE IF gx * gy = 1 THEN 2 ELSE gx
        y == IF z = 2 \/ (big /\ x = 2) THEN 1 ELSE gy
    IN  sc' = [dim |-> dim, gx |-> x, gy |-> y, gz |-> z, n |-> IF big THEN 1 ELSE n, simplex |-> sx, turn |-> tu, nc |-> IF nc > x * y * z THEN x * y * z ELSE nc, seed |-> seed, ref |-> 0,
               h1 |-> h1, o |-> IF big THEN 1 ELSE o, vd |-> IF o = 2 THEN 1 ELSE vd, bv |-> bv, to |-> IF big THEN 1 ELSE to, tv |-> IF to = 2 THEN 1 ELSE tv, mix |-> mix, sub |-> sub,
               k |-> k, style |-> style, ops |-> <<>>]
More == st \in 1..L /\ st' = st + 1 /\ \E op \in One(Ops), seed \in One(0..9999) : sc' = [sc EXCEPT !.ops = Append(@, [op |-> op, seed |-> seed])]
Done == st = L + 1 /\ st' = L + 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Pick \/ More \/ Done]_<<st, sc>>
=============================================================================
