---------------------------- MODULE MinimiseGen ----------------------------
(* Random sequences of systems given to one minimiser. *)
EXTENDS Naturals, Sequences, TLC, Json, Randomization
CONSTANT L
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>>
Step == st < L /\ st' = st + 1 /\
  \E n \in One(1..4), more \in One(0..2), kind \in One(0..3), start \in One(0..3), rhs \in One(0..2), rel \in One({1, 3, 6}), abs \in One({6, 12}),
     few \in One(0..3), sparse \in One(BOOLEAN), seed \in One(0..99999) :
    sc' = Append(sc, [n |-> n, more |-> more, cubic |-> kind = 0, start |-> start, rhs |-> rhs, rel |-> rel, abs |-> abs,
                      max |-> IF few < 2 THEN few + 1 ELSE 400, sparse |-> sparse, seed |-> seed])
Done == st = L /\ st' = L + 1 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Step \/ Done]_<<st, sc>>
=============================================================================
