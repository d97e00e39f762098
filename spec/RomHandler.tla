----------------------------- MODULE RomHandler -----------------------------
(* The reduced-order model of a decomposed problem: one reference basis per     *)
(* component (and per variable when variables have bases of their own), shared  *)
(* by all subdomains of that component; reduced blocks ordered by subdomain or  *)
(* by variable; the Galerkin projection of block operators and vectors onto     *)
(* those bases, lifting, enrichment, and the projected operator on disk.        *)
(*   c = [nv, sep, order, types, dims]   types[m]: component of subdomain m     *)
(*   dims[k][v]: full-order size of variable v of component k                   *)
EXTENDS LinAlg
Slots(c) == IF c.sep THEN c.nv ELSE 1
Subs(c) == Len(c.types)
NumBlocks(c) == Subs(c) * Slots(c)
NumRefs(c) == Len(c.dims) * Slots(c)
\* reduced block of slot v of subdomain m, and back
Index(c, m, v) == IF c.order = "domain" THEN (m - 1) * Slots(c) + v ELSE (v - 1) * Subs(c) + m
Place(c, b) == IF c.order = "domain" THEN <<((b - 1) \div Slots(c)) + 1, ((b - 1) % Slots(c)) + 1>>
               ELSE <<((b - 1) % Subs(c)) + 1, ((b - 1) \div Subs(c)) + 1>>
Ref(c, k, v) == (k - 1) * Slots(c) + v
BasisOf(c, b) == Ref(c, c.types[Place(c, b)[1]], Place(c, b)[2])
FomOf(c, b) == (Place(c, b)[1] - 1) * Slots(c) + Place(c, b)[2]
\* full-order size of a reference block
RefDim(c, r) == LET k == ((r - 1) \div Slots(c)) + 1 IN
                IF c.sep THEN c.dims[k][((r - 1) % c.nv) + 1]
                ELSE LET F(v) == c.dims[k][v] IN SumTo(F, c.nv)
FomSizes(c) == [f \in 1..NumBlocks(c) |-> RefDim(c, Ref(c, c.types[((f - 1) \div Slots(c)) + 1], ((f - 1) % Slots(c)) + 1))]
Offsets(s) == [i \in 1..(Len(s) + 1) |-> LET F(j) == s[j] IN SumTo(F, i - 1)]
RefSizes(B) == [r \in 1..Len(B) |-> Cols(B[r])]
RomSizes(c, B) == [b \in 1..NumBlocks(c) |-> Cols(B[BasisOf(c, b)])]
FirstCols(M, n) == [i \in 1..Rows(M) |-> SubSeq(M[i], 1, n)]
Widen(M, A) == [i \in 1..Rows(M) |-> M[i] \o A[i]]

\* a missing operator is <<>>; it projects to a zero block
Project(L, A, R) == IF A = <<>> THEN Zero(Cols(L), Cols(R)) ELSE RAP(L, A, R)
\* an array of operators, rows projected with the bases `ri`, columns with `rj`
Group(B, ri, rj, mats) == [i \in 1..Len(ri) |-> [j \in 1..Len(rj) |-> Project(B[ri[i]], mats[i][j], B[rj[j]])]]
\* the reference indices of the blocks of a component, an interface, a variable, everything
OfComp(c, k) == [v \in 1..Slots(c) |-> Ref(c, k, v)]
OfSub(c, m) == [v \in 1..Slots(c) |-> Index(c, m, v)]
OfVar(c, v) == [m \in 1..Subs(c) |-> Index(c, m, v)]
All(c) == [b \in 1..NumBlocks(c) |-> b]
Bases(c, blocks) == [i \in 1..Len(blocks) |-> BasisOf(c, blocks[i])]

\* block arrays as one matrix
RECURSIVE Joined(_)
Joined(ms) == IF Len(ms) = 1 THEN ms[1] ELSE Widen(ms[1], Joined(Tail(ms)))
RECURSIVE Mono(_)
Mono(bl) == IF Len(bl) = 1 THEN Joined(bl[1]) ELSE Joined(bl[1]) \o Mono(Tail(bl))
Operator(c, B, mats) == Group(B, Bases(c, All(c)), Bases(c, All(c)), mats)
Flat(bl) == LET RECURSIVE G(_)
                G(k) == IF k = 0 THEN <<>> ELSE G(k - 1) \o bl[k] IN G(Len(bl))
\* block vectors
Reduce(c, B, x) == [b \in 1..NumBlocks(c) |-> MulT(B[BasisOf(c, b)], x[FomOf(c, b)])]
Lift(c, B, y) == [f \in 1..NumBlocks(c) |-> LET b == Index(c, ((f - 1) \div Slots(c)) + 1, ((f - 1) % Slots(c)) + 1)
                                            IN Mul(B[BasisOf(c, b)], y[b])]
Split(s, sizes) == LET o == Offsets(sizes) IN [b \in 1..Len(sizes) |-> SubSeq(s, o[b] + 1, o[b + 1])]
\* number of basis vectors: the tag's own, or the default
Number(default, tags, r) == IF \E i \in 1..Len(tags) : tags[i].r = r
                            THEN tags[CHOOSE i \in 1..Len(tags) : tags[i].r = r].n ELSE default
=============================================================================
