----------------------------- MODULE DecompGen -----------------------------
(* Random labelled meshes to decompose. *)
EXTENDS Naturals, Sequences, TLC, Json, Randomization
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>>
Pick == st = 0 /\ st' = 1 /\
  \E nx \in One(1..4), ny \in One(1..4), tri \in One(BOOLEAN), k \in One(1..6), style \in One(0..3), b \in One(1..5), d \in One(0..999),
     cu \in One({0, 0, 1, 2}), rf \in One({0, 0, 1}), dd \in One({"interior_penalty", "interior_penalty", "interior_penalty", "none"}) :
    sc' = [nx |-> nx, ny |-> ny, tri |-> tri, k |-> k, style |-> style, nb |-> b, seed |-> d, curv |-> cu, ref |-> IF nx * ny > 9 THEN 0 ELSE rf, dd |-> dd]
Done == st = 1 /\ st' = 2 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][Pick \/ Done]_<<st, sc>>
=============================================================================
