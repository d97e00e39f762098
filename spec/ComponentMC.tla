---------------------------- MODULE ComponentMC ----------------------------
(* Two square components (attributes numbered differently) on every 2 x 1 or 2 x 2 grid of  *)
(* quarter turns, every order of setting boundaries and connections.                          *)
EXTENDS Component
CONSTANTS NX, NY, L
Square == [elems |-> <<<< <<0,0>>, <<L,0>>, <<L,L>>, <<0,L>> >>>>,
           bdr |-> <<[v |-> << <<0,0>>, <<L,0>> >>, a |-> 1], [v |-> << <<L,0>>, <<L,L>> >>, a |-> 2],
                     [v |-> << <<0,L>>, <<L,L>> >>, a |-> 3], [v |-> << <<0,0>>, <<0,L>> >>, a |-> 4]>>]
Other == [Square EXCEPT !.bdr = [b \in 1..4 |-> [Square.bdr[b] EXCEPT !.a = 2 + ((b * 3) % 5)]]]
N == NX * NY
Cell(m) == <<(m - 1) % NX, (m - 1) \div NX>>
C(q) == <<5, 0, -5, 0>>[q + 1]
S(q) == <<0, 5, 0, -5>>[q + 1]
T(m, q) == <<5 * L * (Cell(m)[1] + (IF q \in {1, 2} THEN 1 ELSE 0)), 5 * L * (Cell(m)[2] + (IF q \in {2, 3} THEN 1 ELSE 0))>>
Faces(cs, ms, m) == [b \in 1..4 |-> {LET k == ms[m] p == cs[k.type].bdr[b].v[i] IN <<k.c * p[1] - k.s * p[2] + k.t[1], k.s * p[1] + k.c * p[2] + k.t[2]>> : i \in 1..2}]
Pairs(cs, ms) == {x \in (1..N) \X (1..4) \X (1..N) \X (1..4) : x[1] < x[3] /\ Faces(cs, ms, x[1])[x[2]] = Faces(cs, ms, x[3])[x[4]]}
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
Init == /\ comps = <<Square, Other>>
        /\ \E ty \in [1..N -> 1..2], q \in [1..N -> 0..3] :
             meshes = [m \in 1..N |-> [type |-> ty[m], c |-> C(q[m]), s |-> S(q[m]), t |-> T(m, q[m])]]
        /\ LET ps == SeqOf(Pairs(comps, meshes)) IN
             uses = [u \in 1..Len(ps) |-> [m1 |-> ps[u][1], m2 |-> ps[u][3], a1 |-> comps[meshes[ps[u][1]].type].bdr[ps[u][2]].a,
                                            a2 |-> comps[meshes[ps[u][3]].type].bdr[ps[u][4]].a, type |-> u]]
        /\ refs = <<>>
        /\ outer = {[g |-> 1 + (b % 3), m |-> m, a |-> Comp(m).bdr[b].a] : <<m, b>> \in {x \in (1..N) \X (1..4) : \A u \in 1..Len(uses) : ~(uses[u].m1 = x[1] /\ uses[u].a1 = Comp(x[1]).bdr[x[2]].a) /\ ~(uses[u].m2 = x[1] /\ uses[u].a2 = Comp(x[1]).bdr[x[2]].a)}}
        /\ battr = [x \in (1..N) \X (1..4) |-> 0] /\ pattr = <<>>
\* boundaries first (in one fixed order), then connections in any order, as the outcome does not depend on it
Next == LET open == {o \in outer : \E b \in Side(o.m, o.a) : battr[<<o.m, b>>] = 0} IN
        IF open # {} THEN SetOuter(CHOOSE o \in open : TRUE) ELSE \E u \in 1..Len(uses) : Connect(u)
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)
WellFormed == Sane
Terminates == <>Complete
=============================================================================
