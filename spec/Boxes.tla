------------------------------- MODULE Boxes -------------------------------
(* Meshes of a box cut into equal cells, split into equal subdomains, as the mesh utilities write *)
(* them, and conversions of meshes.  Cells are numbered from 0 in every direction.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* p = [n, d, rs, simplex, per, known]: cells and subdomains per direction before refinement, levels of
\* refinement, whether cells are cut into simplices, which directions are periodic,
\* whether the type of cells and the direction asked for exist
RECURSIVE Pow(_), Prod(_, _)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Prod(s, k) == IF k = 0 THEN 1 ELSE s[k] * Prod(s, k - 1)
Dim(p) == Len(p.n)
N(p, i) == p.n[i] * Pow(p.rs)
Cells(p) == {c \in [1..Dim(p) -> 0..8] : \A i \in 1..Dim(p) : c[i] < N(p, i)}
Parts(p) == IF ~p.simplex THEN 1 ELSE IF Dim(p) = 1 THEN 1 ELSE IF Dim(p) = 2 THEN 2 ELSE 6
FaceParts(p) == IF p.simplex /\ Dim(p) = 3 THEN 2 ELSE 1
Accepted(p) == p.known /\ \A i \in 1..Dim(p) : p.n[i] % p.d[i] = 0
\* the subdomain of a cell, counted along the first direction first
RECURSIVE Index(_, _, _)
Index(p, c, k) == IF k = 0 THEN 0 ELSE Index(p, c, k - 1) + ((c[k] * p.d[k]) \div N(p, k)) * Prod(p.d, k - 1)
Attr(p, c) == 1 + Index(p, c, Dim(p))
Subdomains(p) == 1..Prod(p.d, Dim(p))
\* boundary attribute of the side of direction i at its lower (0) or upper (1) end
Side(dim, i, up) == CASE dim = 1 -> 1 + up
  [] dim = 2 -> IF i = 2 THEN (IF up = 0 THEN 1 ELSE 3) ELSE (IF up = 1 THEN 2 ELSE 4)
  [] OTHER -> IF i = 3 THEN (IF up = 0 THEN 1 ELSE 6) ELSE IF i = 2 THEN (IF up = 0 THEN 2 ELSE 4) ELSE (IF up = 1 THEN 3 ELSE 5)
\* vertices of the topology
RECURSIVE NV(_, _)
NV(p, k) == IF k = 0 THEN 1 ELSE NV(p, k - 1) * (IF p.per[k] THEN N(p, k) ELSE N(p, k) + 1)

\* a list of recorded elements [c, v, a]: cell, thousandths of the cell's volume, attribute
Filled(p, els) ==
  LET At(c) == {i \in 1..Len(els) : els[i].c = c}
  IN  /\ Len(els) = Cardinality(Cells(p)) * Parts(p)
      /\ \A i \in 1..Len(els) : els[i].c \in Cells(p) /\ els[i].a = Attr(p, els[i].c) /\ els[i].v * Parts(p) \in (1000 - Parts(p))..(1000 + Parts(p))
      /\ \A c \in Cells(p) : Cardinality(At(c)) = Parts(p)
\* recorded outer faces of the directions that are not periodic [i, up, c, a]
Skin(p, fs) ==
  LET Want == {<<i, up, c>> : i \in {j \in 1..Dim(p) : ~p.per[j]}, up \in 0..1, c \in Cells(p)}
      Real == {w \in Want : w[3][w[1]] = (IF w[2] = 0 THEN 0 ELSE N(p, w[1]) - 1)}
  IN  /\ Len(fs) = Cardinality(Real) * FaceParts(p)
      /\ \A k \in 1..Len(fs) : <<fs[k].i, fs[k].up, fs[k].c>> \in Real /\ fs[k].a = Side(Dim(p), fs[k].i, fs[k].up)
      /\ \A w \in Real : Cardinality({k \in 1..Len(fs) : <<fs[k].i, fs[k].up, fs[k].c>> = w}) = FaceParts(p)

\* the name of a file that was not named: kind, order, refinement, periodic directions (cubes: none for all three)
Suffix(p) == IF \A i \in 1..Dim(p) : ~p.per[i] THEN (IF Dim(p) = 1 THEN "" ELSE "-d")
             ELSE IF Dim(p) = 1 THEN "-p"
             ELSE IF \A i \in 1..Dim(p) : p.per[i] THEN (IF Dim(p) = 2 THEN "-p" ELSE "")
             ELSE IF p.per[1] THEN "-xp" ELSE IF p.per[2] THEN "-yp" ELSE "-p"
DefaultName(p) ==
  (CASE Dim(p) = 1 -> "1d"
     [] Dim(p) = 2 -> (IF p.simplex THEN "rectangle-tri" ELSE "rectangle-quad")
     [] OTHER -> (IF p.simplex THEN "cubic-tetra" ELSE "cubic-hexa"))
  \o (IF Dim(p) = 1 THEN "" ELSE "-o" \o ToString(p.order))
  \o (IF p.rs > 0 THEN "-r" \o ToString(p.rs) ELSE "")
  \o Suffix(p) \o ".mesh"

VARIABLES prm, got          \* the request and what has been seen of its result
bvars == <<prm, got>>
BInit == prm = <<>> /\ got = "idle"
Request(p) == got = "idle" /\ prm' = p /\ got' = "asked"
Refused == got = "asked" /\ ~Accepted(prm) /\ got' = "idle" /\ UNCHANGED prm
Written(file) == got = "asked" /\ Accepted(prm) /\ file /\ got' = "file" /\ UNCHANGED prm
Elements(els) == got = "file" /\ Filled(prm, els) /\ got' = "elems" /\ UNCHANGED prm
Boundary(fs) == got = "elems" /\ Skin(prm, fs) /\ got' = "skin" /\ UNCHANGED prm
Nodes(nv, order, dim) == got = "skin" /\ nv = NV(prm, Dim(prm)) /\ order = prm.order /\ dim = Dim(prm) /\ got' = "idle" /\ UNCHANGED prm
=============================================================================
