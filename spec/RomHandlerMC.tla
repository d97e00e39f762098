--------------------------- MODULE RomHandlerMC ----------------------------
(* All histories of loading, enriching, projecting, saving and reopening over  *)
(* small layouts: the projected operator is always G'AG for the global basis G *)
(* of the current bases, whatever the ordering; files give back what was saved *)
EXTENDS RomHandler
CONSTANTS MaxSteps, Level
VARIABLES c, B, op, disk, k, step
vars == <<c, B, op, disk, k, step>>
NONE == [k |-> 0]
Types == IF Level = 1 THEN {<<1, 2>>, <<2, 1, 2>>} ELSE {<<1, 2>>, <<2, 1>>, <<2, 1, 2>>, <<1, 1, 2>>}
Dims == <<<<2, 1>>, <<1, 2>>>>
Layouts == {[nv |-> 2, sep |-> s, order |-> o, types |-> t, dims |-> Dims] : s \in BOOLEAN, o \in {"domain", "variable"}, t \in Types}
\* bases and operators with distinct, recognisable entries
Basis(r, n, m) == [i \in 1..n |-> [j \in 1..m |-> r + 2 * i - j]]
Mat(q, i, j, n, m) == IF (i + j + q) % 3 = 0 /\ i # j THEN <<>> ELSE [x \in 1..n |-> [y \in 1..m |-> q + i - 2 * j + x * y]]
Mats(cc, q) == [i \in 1..NumBlocks(cc) |-> [j \in 1..NumBlocks(cc) |->
                Mat(q, FomOf(cc, i), FomOf(cc, j), FomSizes(cc)[FomOf(cc, i)], FomSizes(cc)[FomOf(cc, j)])]]
\* the same operator and basis as one matrix over all full-order unknowns, by subdomain
Full(cc, q) == Mono([i \in 1..NumBlocks(cc) |-> [j \in 1..NumBlocks(cc) |->
                LET n == FomSizes(cc)[i] m == FomSizes(cc)[j] M == Mat(q, i, j, n, m) IN IF M = <<>> THEN Zero(n, m) ELSE M]])
G(cc, BB) == Mono([f \in 1..NumBlocks(cc) |-> [b \in 1..NumBlocks(cc) |->
                IF FomOf(cc, b) = f THEN BB[BasisOf(cc, b)] ELSE Zero(FomSizes(cc)[f], Cols(BB[BasisOf(cc, b)]))]])
Start(cc) == [r \in 1..NumRefs(cc) |-> Basis(r, RefDim(cc, r), 1)]
Init == c \in Layouts /\ B = Start(c) /\ op = NONE /\ disk = NONE /\ k = 0 /\ step = 0
Go == step < MaxSteps /\ step' = step + 1 /\ UNCHANGED c
Proj == Go /\ \E q \in 1..2 : k' = q /\ op' = [bl |-> Operator(c, B, Mats(c, q)), B |-> B, k |-> q] /\ UNCHANGED <<B, disk>>
Save == Go /\ op # NONE /\ op.B = B /\ disk' = op /\ UNCHANGED <<B, op, k>>
Open == Go /\ disk # NONE /\ RefSizes(disk.B) = RefSizes(B) /\ op' = disk /\ k' = disk.k /\ UNCHANGED <<B, disk>>
Enrich == Go /\ \E r \in 1..NumRefs(c) : Cols(B[r]) < 2 /\ B' = [B EXCEPT ![r] = Widen(@, Basis(r + 1, Rows(@), 1))] /\ UNCHANGED <<op, disk, k>>
Reopen == Go /\ B' = Start(c) /\ op' = NONE /\ UNCHANGED <<disk, k>>
Next == Proj \/ Save \/ Open \/ Enrich \/ Reopen
Spec == Init /\ [][Next]_vars
Galerkin == op # NONE => Mono(op.bl) = RAP(G(c, op.B), Full(c, op.k), G(c, op.B))
\* enriching a basis keeps what was projected before as the leading part of every block
Leading == op # NONE => LET new == Operator(c, B, Mats(c, op.k)) IN
   (\A r \in 1..NumRefs(c) : Cols(B[r]) >= Cols(op.B[r])) =>
     \A i, j \in 1..NumBlocks(c) : \A x \in 1..Rows(op.bl[i][j]) : SubSeq(new[i][j][x], 1, Cols(op.bl[i][j])) = op.bl[i][j][x]
Vector == LET x == [f \in 1..NumBlocks(c) |-> [i \in 1..FomSizes(c)[f] |-> f * 3 + i]]
              y == Reduce(c, B, x)
          IN /\ Flat(y) = MulT(G(c, B), Flat(x))
             /\ Flat(Lift(c, B, y)) = Mul(G(c, B), Flat(y))
             /\ Split(Flat(y), RomSizes(c, B)) = y
Indices == /\ {Index(c, m, v) : m \in 1..Subs(c), v \in 1..Slots(c)} = 1..NumBlocks(c)
           /\ \A b \in 1..NumBlocks(c) : Index(c, Place(c, b)[1], Place(c, b)[2]) = b
           /\ \A m \in 1..Subs(c), v \in 1..Slots(c) : Place(c, Index(c, m, v)) = <<m, v>>
=============================================================================
