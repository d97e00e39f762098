------------------------------ MODULE BlocksMC ------------------------------
(* 1x1 blocks, two collections, every short history: copies are independent and the block matrix *)
(* is the sum of what was added, whatever happened to the collections since.                       *)
EXTENDS Blocks
VARIABLES n, total
Init == BInit({"A", "B"}) /\ rs = <<1, 1>> /\ cs = <<1>> /\ n = 0 /\ total = 0
\* big starts empty and is created by the first step
Start == big = <<>> /\ big' = Empty /\ UNCHANGED <<coll, rs, cs, n, total>>
SumBlocks(bl) == LET S == DOMAIN bl F[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET s == CHOOSE s \in T : TRUE IN bl[s][1][1] + F[T \ {s}] IN F[S]
Next == \/ Start
        \/ /\ big # <<>> /\ n < 5 /\ n' = n + 1
           /\ \/ UNCHANGED total /\ \/ \E o \in {"A", "B"} : Resize(o, 2, 1)
                                    \/ \E o \in {"A", "B"}, i \in 1..2, v \in {1, -2} : SetBlock(o, i, 1, <<<<v>>>>)
                                    \/ \E o \in {"A", "B"}, i \in 1..2 : ScaleBlock(o, i, 1, 3)
                                    \/ Copy("A", "B") \/ Copy("B", "A") \/ Copy("A", "A")
              \/ \E o \in {"A", "B"}, ri \in [1..2 -> 1..2] : AddTo(o, ri, <<1>>) /\ total' = total + SumBlocks(coll[o].b)
Spec == Init /\ [][Next]_<<bvars, n, total>>
Conserved == big # <<>> => big[<<1, 1>>][1][1] + big[<<2, 1>>][1][1] = total
=============================================================================
