--------------------------- MODULE RomHandlerTrace --------------------------
EXTENDS RomHandler, Json, IOUtils
VARIABLES l, c, B, op, disk, rhs
tv == <<l, c, B, op, disk, rhs>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
\* op, disk: [bl, sizes]; sizes = <<>> when there is none
NoOp == [bl |-> <<>>, sizes |-> <<>>]
C0 == [nv |-> 1, sep |-> FALSE, order |-> "domain", types |-> <<1>>, dims |-> <<<<1>>>>]
TInit == l = 1 /\ c = C0 /\ B = <<>> /\ op = NoOp /\ disk = NoOp /\ rhs = <<>>
TBegin == Is("Begin") /\ c' = [nv |-> E.nv, sep |-> E.sep, order |-> E.order, types |-> E.types, dims |-> E.dims]
          /\ B' = <<>> /\ op' = NoOp /\ disk' = NoOp /\ rhs' = <<>>
Keep == UNCHANGED <<c, B, op, disk, rhs>>
Nums == [r \in 1..NumRefs(c) |-> Number(E.default, E.tags, r)]
\* what a handler shows right after construction: numbers, offsets, indices
TMeta == /\ Is("Meta")
         /\ LET n == Nums s == [b \in 1..NumBlocks(c) |-> n[BasisOf(c, b)]] IN
            /\ E.nums = n /\ E.offsets = Offsets(s)
         /\ E.index = [m \in 1..Subs(c) |-> [v \in 1..Slots(c) |-> Index(c, m, v) - 1]]
         /\ E.whole = (IF c.sep THEN <<>> ELSE [m \in 1..Subs(c) |-> m - 1])
         /\ E.place = [b \in 1..NumBlocks(c) |-> <<Place(c, b)[1] - 1, IF c.sep THEN Place(c, b)[2] - 1 ELSE -1>>]
         /\ E.back = [b \in 1..NumBlocks(c) |-> b - 1]
         /\ E.ref = [m \in 1..Subs(c) |-> c.types[m] - 1]
         /\ Keep
\* loading: the leading columns of every component's (and variable's) own file, in reference order
TLoad == /\ Is("Load")
         /\ LET n == Nums new == [r \in 1..NumRefs(c) |-> FirstCols(E.files[r], n[r])] IN
            /\ B' = new /\ E.basis = new
            /\ E.dom = [b \in 1..NumBlocks(c) |-> new[BasisOf(c, b)]]
            /\ E.names = [r \in 1..NumRefs(c) |-> r - 1]
         /\ op' = NoOp /\ rhs' = <<>> /\ UNCHANGED <<c, disk>>
TEarly == Is("Early") /\ E.ok = FALSE /\ Keep
TVec == /\ Is("Vec")
        /\ \A i \in 1..Len(E.refs) : LET x == E.refs[i] IN x.p = MulT(B[x.r], x.x) /\ x.u = Mul(B[x.r], x.p)
        /\ \A i \in 1..Len(E.doms) : LET x == E.doms[i] IN x.p = MulT(B[BasisOf(c, x.b)], x.x) /\ x.u = Mul(B[BasisOf(c, x.b)], x.p)
        /\ E.red = Reduce(c, B, E.x) /\ E.red2 = E.red
        /\ E.lift = Lift(c, B, E.red)
        /\ Keep
Which(kind, a, b) == CASE kind = "refs" -> [i \in 1..Len(a) |-> a[i]]
                       [] kind = "comp" -> OfComp(c, a[1])
                       [] kind = "itf" -> OfComp(c, a[1]) \o OfComp(c, b[1])
                       [] kind = "doms" -> Bases(c, a)
                       [] kind = "sub" -> Bases(c, OfSub(c, a[1]))
                       [] kind = "subs" -> Bases(c, OfSub(c, a[1]) \o OfSub(c, b[1]))
                       [] kind = "var" -> Bases(c, OfVar(c, a[1]))
                       [] kind = "all" -> Bases(c, All(c))
\* operators between any selection of blocks; rows and columns may be selected separately
TGroup == /\ Is("Group")
          /\ LET ri == Which(E.op, E.a, E.b)
                 rj == IF E.op \in {"refs", "doms", "var"} THEN Which(E.op, E.b, E.a) ELSE ri
             IN E.out = Group(B, ri, rj, E.mats)
          /\ Keep
TOper == /\ Is("Oper")
         /\ LET bl == Operator(c, B, E.mats) IN
            /\ op' = [bl |-> bl, sizes |-> RomSizes(c, B)]
            /\ E.mono = Mono(bl) /\ E.loaded = TRUE
         /\ UNCHANGED <<c, B, disk, rhs>>
TSave == Is("Save") /\ disk' = op /\ UNCHANGED <<c, B, op, rhs>>
TLoadOp == /\ Is("LoadOp") /\ disk.sizes = RomSizes(c, B) /\ op' = disk /\ E.mono = Mono(disk.bl) /\ E.loaded = TRUE /\ UNCHANGED <<c, B, disk, rhs>>
\* an operator that does not fit the bases is not taken
TNoFit == Is("NoFit") /\ disk.sizes # RomSizes(c, B) /\ E.ok = FALSE /\ Keep
TAppend == /\ Is("Append")
           /\ LET new == [B EXCEPT ![E.r] = Widen(@, E.cols)] IN
              /\ B' = new
              /\ E.basis = new /\ E.dom = [b \in 1..NumBlocks(c) |-> new[BasisOf(c, b)]]
              /\ E.nums = RefSizes(new) /\ E.offsets = Offsets(RomSizes(c, new))
           /\ op' = NoOp /\ E.loaded = FALSE
           /\ rhs' = <<>> /\ UNCHANGED <<c, disk>>
TBad == Is("BadAppend") /\ E.ok = FALSE /\ Keep
\* the reduced solution solves the reduced system, the solution is its lift
TSolve == /\ Is("Solve")
          /\ E.rhs = Reduce(c, B, E.x) /\ rhs' = E.rhs
          /\ Mul(Mono(op.bl), E.sol) = Flat(E.rhs)
          /\ E.u = Lift(c, B, Split(E.sol, RomSizes(c, B)))
          /\ UNCHANGED <<c, B, op, disk>>
\* what is written down about the reduced system
TFiles == /\ Is("Files") /\ E.rhs = Flat(rhs) /\ E.rhs2 = Flat(rhs) /\ E.sol = E.want /\ E.sol2 = E.want /\ E.mat = Mono(op.bl) /\ Keep
\* A y + y^3 = rhs
Cube(y) == [i \in 1..Len(y) |-> y[i] * y[i] * y[i]]
TNonlin == /\ Is("Nonlin")
           /\ IF E.steps = 0
              THEN E.sol = (IF E.restart THEN Flat(Reduce(c, B, E.u0)) ELSE [i \in 1..Len(E.sol) |-> 0])
              ELSE VAdd(Mul(Mono(op.bl), E.sol), Cube(E.sol)) = E.rhs
           /\ E.u = Lift(c, B, Split(E.sol, RomSizes(c, B)))
           /\ Keep
\* supremizers: as many as the tag of the second variable says, else the default, else one per basis vector of that variable
TSup == /\ Is("Sup")
        /\ LET n(k) == LET r == Ref(c, k, 2) d == IF E.default > 0 THEN E.default ELSE Cols(B[r])
                       IN Number(d, E.tags, r)
           IN E.ref = [k \in 1..Len(c.dims) |-> n(k)] /\ E.sub = [m \in 1..Subs(c) |-> n(c.types[m])]
        /\ Keep
\* pictures of the basis: every column of every reference basis, as the values at both ends of five
\* segments; six coefficients are values at the vertices, five are values of the segments
Points(d) == [p \in 1..10 |-> IF Len(d) = 6 THEN d[(p \div 2) + 1] ELSE d[(p + 1) \div 2]]
VarsOf(r) == IF c.sep THEN <<((r - 1) % c.nv) + 1>> ELSE [v \in 1..c.nv |-> v]
Part(r, k, v) == LET comp == ((r - 1) \div Slots(c)) + 1
                     before == IF c.sep THEN 0 ELSE LET F(w) == c.dims[comp][w] IN SumTo(F, v - 1)
                 IN [i \in 1..c.dims[comp][v] |-> B[r][before + i][k]]
TVis == /\ Is("Vis")
        /\ \A r \in 1..NumRefs(c) :
             {<<x.k, x.v, x.vals>> : x \in {E.fields[r][i] : i \in 1..Len(E.fields[r])}}
             = {<<k, v, Points(Part(r, k, v))>> : k \in 1..Cols(B[r]), v \in {VarsOf(r)[i] : i \in 1..Len(VarsOf(r))}}
        /\ Keep
TReopen == Is("Reopen") /\ B' = <<>> /\ op' = NoOp /\ rhs' = <<>> /\ UNCHANGED <<c, disk>>
TNext == TBegin \/ TMeta \/ TLoad \/ TEarly \/ TVec \/ TGroup \/ TOper \/ TSave \/ TLoadOp \/ TNoFit \/ TAppend \/ TBad \/ TSolve \/ TFiles \/ TNonlin \/ TSup \/ TReopen \/ TVis
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
