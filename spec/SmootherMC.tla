----------------------------- MODULE SmootherMC -----------------------------
(* 1x1 and 2x2 blocks: relaxing a block zeroes its residual; the exact solution is a fixed point;   *)
(* a forward sweep solves a lower triangular system, a backward sweep an upper triangular one.         *)
EXTENDS Smoother
VARIABLES A, D, b, y, pos
Blk == {<<>>, <<<<1>>, <<-1>>>>, <<<<2>>, <<0>>>>}          \* 2 x 1
Blt == {<<>>, <<<<1, 2>>>>, <<<<-1, 0>>>>}                  \* 1 x 2
Dg == {<< <<<<1, 1>>, <<0, 1>>>>, <<<<1, -1>>, <<0, 1>>>> >>, << <<<<0, 1>>, <<-1, 2>>>>, <<<<2, -1>>, <<1, 0>>>> >>}
Init == \E d \in Dg, e \in {1, -1}, u \in Blk, v \in Blt, x1 \in {<<0, 0>>, <<1, -2>>}, x2 \in {<<3>>} :
          /\ A = <<<<d[1], u>>, <<v, <<<<e>>>>>>>> /\ D = <<d[2], <<<<e>>>>>> /\ b = <<x1, x2>> /\ y = <<<<0, 1>>, <<2>>>> /\ pos = 0
Next == \E i \in 1..2 : pos' = i /\ y' = Relax(A, D, b, y, i) /\ UNCHANGED <<A, D, b>>
Small == \A i \in 1..2 : \A r \in 1..Len(y[i]) : y[i][r] \in -60..60
Spec == Init /\ [][Next]_<<A, D, b, y, pos>>
Zeroed == pos # 0 => Residual(A, b, y, pos) = ZeroV(Len(b[pos]))
FixedPoint == (\A i \in 1..2 : Residual(A, b, y, i) = ZeroV(Len(b[i]))) => \A t \in 0..2 : Sweep(A, D, b, y, t) = y
Triangular == /\ A[1][2] = <<>> => \A i \in 1..2 : Residual(A, b, Sweep(A, D, b, y, 1), i) = ZeroV(Len(b[i]))
              /\ A[2][1] = <<>> => \A i \in 1..2 : Residual(A, b, Sweep(A, D, b, y, 2), i) = ZeroV(Len(b[i]))
Good == Inverses(A, D)
=============================================================================
