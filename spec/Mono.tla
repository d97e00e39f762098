-------------------------------- MODULE Mono --------------------------------
(* The equivalence of a decomposed domain and the undivided one.  Every interior face of the       *)
(* undivided mesh lies inside one subdomain or on a port, and whichever it is, it contributes       *)
(* the same to its two elements: the form of the decomposed domain (subdomain forms plus            *)
(* interface form) is the sum of the contributions of all faces of the undivided mesh.              *)
EXTENDS Integers, Sequences
CONSTANT T
RECURSIVE SumF(_, _)
SumF(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
Sum(f) == SumF(f, Len(f))
Abs(x) == IF x < 0 THEN -x ELSE x
\* contribution of face f to entry a of element e
At(f, e, a) == (IF f.e[1] = e THEN f.y[1][a] ELSE 0) + (IF f.e[2] = e THEN f.y[2][a] ELSE 0)
\* the form of the undivided domain
Whole(faces, e, a) == Sum([k \in 1..Len(faces) |-> At(faces[k], e, a)])
Around(faces, e) == SelectSeq(faces, LAMBDA f : e \in {f.e[1], f.e[2]})
IsWhole(faces, y, s) == \A e \in 1..Len(y) :
  LET fs == Around(faces, e) IN \A a \in 1..Len(y[e]) : Abs(y[e][a] - Whole(fs, e, a)) <= s * (Len(fs) + 1)
\* the form of a decomposed domain: part = subdomain of each element, faces inside by the subdomain, others by the ports
Inside(faces, part, k) == SelectSeq(faces, LAMBDA f : part[f.e[1]] = k /\ part[f.e[2]] = k)
Port(faces, part, k, m) == SelectSeq(faces, LAMBDA f : {part[f.e[1]], part[f.e[2]]} = {k, m})
=============================================================================
