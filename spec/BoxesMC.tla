------------------------------ MODULE BoxesMC ------------------------------
(* The mesh of every small request, built cell by cell: at the end all subdomains are there, equal in   *)
(* size and made of whole blocks of cells, and the sides have as many faces as the box has cells there. *)
EXTENDS Boxes
VARIABLE els
vs == <<bvars, els>>
Reqs == UNION {[n : [1..k -> {1, 2, 4}], d : [1..k -> {1, 2}], rs : 0..1, simplex : BOOLEAN, per : [1..k -> {FALSE}], order : {1}, known : BOOLEAN] : k \in 1..2}
Todo == {c \in Cells(prm) : \A i \in 1..Len(els) : els[i].c # c}
First(S) == CHOOSE c \in S : \A e \in S : Index([prm EXCEPT !.d = [i \in 1..Dim(prm) |-> N(prm, i)]], c, Dim(prm)) <= Index([prm EXCEPT !.d = [i \in 1..Dim(prm) |-> N(prm, i)]], e, Dim(prm))
Init == BInit /\ els = <<>>
Next == \/ \E p \in Reqs : prm = <<>> /\ Request(p) /\ UNCHANGED els
        \/ Refused /\ UNCHANGED els
        \/ Written(TRUE) /\ UNCHANGED els
        \/ got = "file" /\ Todo # {} /\ LET c == First(Todo) IN els' = els \o [i \in 1..Parts(prm) |-> [c |-> c, v |-> 1000 \div Parts(prm), a |-> Attr(prm, c)]] /\ UNCHANGED bvars
        \/ Elements(els) /\ UNCHANGED els
Spec == Init /\ [][Next]_vs
Size(a) == Cardinality({i \in 1..Len(els) : els[i].a = a})
Equal == got = "elems" => \A a, b \in Subdomains(prm) : Size(a) = Size(b) /\ Size(a) > 0
Known == \A i \in 1..Len(els) : els[i].a \in Subdomains(prm)
Done == got = "file" /\ Todo = {} => Filled(prm, els)
\* a subdomain is a block: with two cells it has every cell between them
Block == got = "elems" => \A a \in Subdomains(prm) : LET C == {els[i].c : i \in {j \in 1..Len(els) : els[j].a = a}} IN
  \A c \in Cells(prm) : (\A k \in 1..Dim(prm) : \E x, y \in C : x[k] <= c[k] /\ c[k] <= y[k]) => c \in C
=============================================================================
