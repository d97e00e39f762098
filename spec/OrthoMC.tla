------------------------------ MODULE OrthoMC ------------------------------
(* Exact Gram-Schmidt one column at a time on all small matrices of full rank: columns done are        *)
(* mutually orthogonal, orthogonal to the reference columns, non-zero, and within the span of theirs.     *)
EXTENDS Ortho
VARIABLES A, done, ref
Ent == {-1, 0, 2}
Vs == {<<a, b, c>> : a, b, c \in Ent}
Refs == {<<>>, <<<<1, 1, 0>>>>, <<<<1, 2, 0>>, <<2, -1, 0>>>>}
Init == A \in {<<x, y>> : x, y \in Vs} /\ ref \in Refs /\ done = <<>>
Zer == <<0, 0, 0>>
FullRank == \A k \in 1..2 : GS(A, <<>>, ref)[k] # Zer
Next == /\ FullRank /\ Len(done) < 2 /\ Len(done) + Len(ref) < 3
        /\ done' = Append(done, Strip(A[Len(done) + 1], ref \o done)) /\ UNCHANGED <<A, ref>>
Spec == Init /\ [][Next]_<<A, done, ref>>
Mutual == \A i, j \in 1..Len(done) : i # j => Dot(done[i], done[j]) = 0
Away == \A i \in 1..Len(done), k \in 1..Len(ref) : Dot(done[i], ref[k]) = 0
Positive == \A i \in 1..Len(done) : Dot(done[i], A[i]) > 0
Behind == \A i, j \in 1..Len(done) : i > j /\ ref = <<>> => Dot(done[i], A[j]) = 0
=============================================================================
