----------------------------- MODULE LinAlgGen -----------------------------
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANTS Ops, D
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>>
Next == \/ st = 0 /\ st' = 1 /\ \E op \in One(Ops), a \in One(1..D), b \in One(1..D), c \in One(1..D), d \in One(1..D), e \in One(1..D), f \in One(1..D), seed \in One(0..999999) :
             sc' = [op |-> op, a |-> a, b |-> b, c |-> c, d |-> d, e |-> e, f |-> f, seed |-> seed]
        \/ st = 1 /\ st' = 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<st, sc>>
=============================================================================
