------------------------------ MODULE HyperGen ------------------------------
(* Random assemblies, integrators and sequences of sampling, training, storing, precomputing and evaluating. *)
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANTS L
VARIABLES st, sc, dirty, saved
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>> /\ dirty = TRUE /\ saved = {}
Pick == st = 0 /\ st' = 1 /\ UNCHANGED <<dirty, saved>> /\
  \E d \in One(1..6), gx \in One(1..2), gy \in One(1..2), n \in One(1..2), sx \in One(BOOLEAN), nc \in One(1..2), seed \in One(0..99999),
     sub \in One(1..3), k \in One(2..3), style \in One(0..3), o \in One({1, 1, 1, 2}), h1 \in One(BOOLEAN), fam \in One(1..4), ni \in One(0..7), crit \in One({"l2", "linf"}) :
    LET dim == IF d < 6 THEN 2 ELSE 3
        x == IF gx * gy = 1 THEN 2 ELSE gx
        y == IF dim = 3 /\ x = 2 THEN 1 ELSE gy
    IN  sc' = [dim |-> dim, gx |-> x, gy |-> y, gz |-> 1, n |-> IF dim = 3 THEN 1 ELSE n, simplex |-> sx, turn |-> FALSE, nc |-> IF nc > x * y THEN x * y ELSE nc, seed |-> seed, ref |-> 0,
               sub |-> (sub = 1 /\ dim = 2), k |-> k, style |-> style, o |-> IF dim = 3 THEN 1 ELSE o, h1 |-> h1, fam |-> fam, ni |-> ni, crit |-> crit, ops |-> <<>>]
Add(op, f, seed, fast, tol, slot) == sc' = [sc EXCEPT !.ops = Append(@, [op |-> op, f |-> f, seed |-> seed, fast |-> fast, tol |-> tol, slot |-> slot])]
More == st \in 1..L /\ st' = st + 1 /\
  \E w \in One(1..20), f \in One(0..7), seed \in One(0..99999), fast \in One(BOOLEAN), tol \in One({1, 2, 5, 10, 20}), slot \in One(1..2) :
    LET A(op) == Add(op, f, seed, fast /\ ~dirty, tol, slot) IN
    CASE w \in 1..2 -> A("sample") /\ dirty' = TRUE /\ UNCHANGED saved
      [] w = 3 -> A("psample") /\ dirty' = TRUE /\ UNCHANGED saved
      [] w = 4 -> A("train") /\ dirty' = TRUE /\ UNCHANGED saved
      [] w = 5 -> A("ptrain") /\ dirty' = TRUE /\ UNCHANGED saved
      [] w = 6 -> A("save") /\ saved' = saved \cup {slot} /\ UNCHANGED dirty
      [] w = 7 -> (IF slot \in saved THEN A("load") ELSE A("sample")) /\ dirty' = TRUE /\ UNCHANGED saved
      [] w = 8 -> A("basis") /\ dirty' = TRUE /\ UNCHANGED saved
      [] w \in 9..11 -> A("pre") /\ dirty' = FALSE /\ UNCHANGED saved
      [] w = 12 -> A("look") /\ UNCHANGED <<dirty, saved>>
      [] w = 13 -> A("misuse") /\ UNCHANGED <<dirty, saved>>
      [] w \in 14..15 -> A("eval") /\ UNCHANGED <<dirty, saved>>
      [] w \in 16..17 -> A("view") /\ UNCHANGED <<dirty, saved>>
      [] w \in 18..20 -> A("itf") /\ UNCHANGED <<dirty, saved>>
Done == st = L + 1 /\ st' = L + 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED <<sc, dirty, saved>>
Spec == Init /\ [][Pick \/ More \/ Done]_<<st, sc, dirty, saved>>
=============================================================================
