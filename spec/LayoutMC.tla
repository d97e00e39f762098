------------------------------ MODULE LayoutMC ------------------------------
(* The generator's algorithm on small boxes: components are put down one by one, in any order of places, *)
(* each is joined to whatever already lies beside it, ports are added when first needed, and what stays   *)
(* open in the end becomes boundary.  Whatever the order, the result is the box asked for; leaving any     *)
(* interface or boundary row out, or describing it wrongly, is not.                                        *)
EXTENDS Layout
VARIABLES b, f, closed
vs == <<b, f, closed, lvars>>
Boxes == {[nx |-> x, ny |-> y, px |-> p, py |-> q, comps |-> <<"empty", "hub">>] : x \in 1..2, y \in 1..2, p \in BOOLEAN, q \in BOOLEAN}
        \cup {[nx |-> 3, ny |-> 1, px |-> p, py |-> FALSE, comps |-> <<"empty", "hub">>] : p \in BOOLEAN}
Per == <<IF b.px THEN b.nx ELSE 0, IF b.py THEN b.ny ELSE 0>>
Init == LInit /\ b \in Boxes /\ closed = FALSE /\ f = [comps |-> b.comps, meshes |-> <<>>, conf |-> <<>>, ports |-> <<>>, extra |-> 0, ifs |-> <<>>, bdr |-> <<>>]
Free == Rect(b.nx, b.ny) \ {Place(f, m, 1000) : m \in 0..(NM(f) - 1)}
RECURSIVE Join(_, _)
\* pairs still to be joined: <<m1, m2, a1, a2>>
Join(g, todo) ==
  IF todo = {} THEN g
  ELSE LET r == CHOOSE x \in todo : TRUE
           k == <<Name(g, r[1]), Name(g, r[2]), r[3], r[4]>>
           known == {i \in 1..Len(g.ports) : <<g.ports[i].c1, g.ports[i].c2, g.ports[i].a1, g.ports[i].a2>> = k}
           h == IF known # {} THEN g
                ELSE [g EXCEPT !.ports = Append(@, [name |-> Len(g.ports), full |-> TRUE, c1 |-> k[1], c2 |-> k[2], a1 |-> k[3], a2 |-> k[4], conf |-> [j \in 1..6 |-> IF j <= 3 THEN 1000 * Dir(2, k[3])[j] ELSE 0]])]
           p == IF known # {} THEN (CHOOSE i \in known : TRUE) - 1 ELSE Len(g.ports)
       IN  Join([h EXCEPT !.ifs = Append(@, <<r[1], r[2], r[3], r[4], p>>)], todo \ {r})
Put(c, at) ==
  LET g == [f EXCEPT !.meshes = Append(@, c), !.conf = Append(@, [k \in 1..6 |-> IF k <= 3 THEN 1000 * at[k] ELSE 0])]
      n == NM(g) - 1
      All == {<<m1, m2, a>> : m1 \in 0..n, m2 \in 0..n, a \in {1, 2}}
      New == {t \in All : (t[1] = n \/ t[2] = n) /\ Beside(Place(g, t[1], 1000), 2, t[3], Per) = Place(g, t[2], 1000)}
  IN  f' = Join(g, {<<t[1], t[2], t[3], t[3] + 2>> : t \in New}) /\ UNCHANGED <<b, closed>>
RECURSIVE Bound(_, _)
Bound(g, open) == IF open = {} THEN g ELSE LET x == CHOOSE y \in open : TRUE IN Bound([g EXCEPT !.bdr = Append(@, <<x[2], x[1], x[2]>>)], open \ {x})
Close == ~closed /\ Free = {} /\ closed' = TRUE /\ UNCHANGED b
         /\ f' = Bound(f, {x \in (0..(NM(f) - 1)) \X (1..5) : x[2] \in (1..4 \cup IF Name(f, x[1]) = "empty" THEN {} ELSE {5}) /\ Closed(f, x[1], x[2]) = 0})
Next == UNCHANGED lvars /\ (Close \/ (~closed /\ \E c \in 0..1, at \in Free : Put(c, at)))
Spec == Init /\ [][Next]_vs
Used(g) == {g.meshes[i] : i \in 1..NM(g)} = {0, 1}
BoxBut(g) == Grid(g, 2, 1000, Rect(b.nx, b.ny), Per, Holed(g))
Right == closed => BoxBut(f) /\ (Used(f) => Box(f, b))
\* leaving out or repeating a row is noticed
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Tight == closed => /\ \A i \in 1..Len(f.ifs) : ~BoxBut([f EXCEPT !.ifs = Cut(@, i)]) /\ ~BoxBut([f EXCEPT !.ifs = Append(@, f.ifs[i])])
                   /\ \A i \in 1..Len(f.bdr) : ~BoxBut([f EXCEPT !.bdr = Cut(@, i)]) /\ ~BoxBut([f EXCEPT !.bdr[i][1] = (@ % 5) + 1])
                   /\ \A i \in 1..Len(f.ifs) : Len(f.ports) > 1 => ~BoxBut([f EXCEPT !.ifs[i][5] = (@ + 1) % Len(f.ports)])
                   /\ \A i \in 1..Len(f.ifs) : \A k \in 1..6 : ~BoxBut([f EXCEPT !.ports[f.ifs[i][5] + 1].conf[k] = @ + 500])
\* as many faces as the meshes have, and an open box has its outline as boundary
Count == closed => 2 * Len(f.ifs) + Len(f.bdr) = 4 * NM(f) + Cardinality({m \in 0..(NM(f) - 1) : Name(f, m) # "empty"})
ASSUME Cardinality(Walks(1)) = 3 /\ Cardinality(Walks(2)) = 9 /\ Cardinality(Walks(3)) = 27 /\ Cardinality(Walks(4)) = 75
=============================================================================
