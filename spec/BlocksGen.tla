----------------------------- MODULE BlocksGen -----------------------------
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANT L
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Ops == {"resize", "set", "set2", "set3", "scale", "drop", "copy", "self", "arr", "twin", "add", "add2", "read"}
Init == st = 0 /\ sc = <<>>
Next == \/ st < L /\ st' = st + 1 /\ \E op \in One(Ops), o \in One(0..2), p \in One(0..2), i \in One(0..3), j \in One(0..3), seed \in One(0..99999) :
             sc' = Append(sc, [op |-> op, o |-> o, p |-> p, i |-> i, j |-> j, seed |-> seed])
        \/ st = L /\ st' = L + 1 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<st, sc>>
=============================================================================
