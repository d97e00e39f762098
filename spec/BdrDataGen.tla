----------------------------- MODULE BdrDataGen -----------------------------
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANT L
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>>
Pick == st = 0 /\ st' = 1 /\
  \E dim \in One({2, 2, 2, 3}), nx \in One(1..2), ny \in One(1..2), sx \in One(BOOLEAN), nb \in One(1..3), seed \in One(0..99999) :
    sc' = [dim |-> dim, nx |-> nx, ny |-> IF dim = 3 THEN 1 ELSE ny, simplex |-> sx, nb |-> nb, seed |-> seed, ops |-> <<>>]
More == st \in 1..L /\ st' = st + 1 /\
  \E op \in One({"dir", "normal", "stress", "temam"}), o \in One(0..2), q \in One(0..1), bt \in One(0..1), rule \in One(BOOLEAN), seed \in One(0..9999) :
    sc' = [sc EXCEPT !.ops = Append(@, [op |-> op, o |-> IF sc.dim = 3 /\ o = 2 THEN 1 ELSE o, q |-> q, bt |-> IF o = 0 THEN 0 ELSE bt, rule |-> rule, seed |-> seed])]
Done == st = L + 1 /\ st' = L + 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Pick \/ More \/ Done]_<<st, sc>>
=============================================================================
