----------------------------- MODULE ParamsGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANT L
VARIABLES st, ps, sc
One(X) == RandomSubset(1, X)
Keys == {<<"a">>, <<"b", "c">>, <<"b", "d", "e">>, <<"q1", "q2">>}
Init == st = 0 /\ ps = <<>> /\ sc = <<>>
AddParam == \E kind \in One({"real", "log", "int", "file"}), lo \in One(0..30), w \in One(0..20), key \in One(Keys), wid \in One(0..5) :
   LET l == IF kind = "file" THEN lo ELSE IF kind = "log" THEN (lo % 12) - 6 ELSE lo - 15 IN
   ps' = Append(ps, [kind |-> kind, key |-> key, min |-> l, max |-> l + (IF kind = "log" THEN w % 7 ELSE w), pre |-> "out_", wid |-> wid, post |-> ".h5"])
Step == \E k \in One(1..Len(ps)), op \in One({"size", "max", "set", "set2", "set3", "bad", "rand", "list"}), n \in One(1..12), i \in One(0..40) :
   sc' = Append(sc, [op |-> op, k |-> k, n |-> n, i |-> i])
Next == \/ st < 3 /\ st' = st + 1 /\ AddParam /\ UNCHANGED sc
        \/ st >= 3 /\ st < L /\ st' = st + 1 /\ Step /\ UNCHANGED ps
        \/ st = L /\ st' = L + 1 /\ PrintT("@@" \o ToJson([ps |-> ps, ops |-> sc])) /\ UNCHANGED <<ps, sc>>
Spec == Init /\ [][Next]_<<st, ps, sc>>
=============================================================================
