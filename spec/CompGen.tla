------------------------------ MODULE CompGen ------------------------------
(* Random component configurations: grids of components, quarter turns, port and boundary layouts. *)
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANT Dims
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>>
Pick == st = 0 /\ st' = 1 /\
  \E dim \in One(Dims), gx \in One(1..3), gy \in One(1..3), gz \in One(1..2), n \in One(1..3), sx \in One(BOOLEAN), tu \in One(BOOLEAN), nc \in One(1..3), ref \in One(0..3), seed \in One(0..99999) :
    LET big == dim = 3
        x == IF big /\ gx = 3 THEN 2 ELSE gx
        y == IF big /\ gy = 3 THEN 1 ELSE gy
        cells == x * y * (IF big THEN gz ELSE 1)
    IN  sc' = [dim |-> dim, gx |-> x, gy |-> y, gz |-> gz, n |-> IF big /\ n = 3 THEN 2 ELSE n, simplex |-> sx, turn |-> tu,
               nc |-> IF nc > cells THEN cells ELSE nc, seed |-> seed, ref |-> IF ref = 3 /\ n < 3 THEN 1 ELSE 0]
Done == st = 1 /\ st' = 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Pick \/ Done]_<<st, sc>>
=============================================================================
