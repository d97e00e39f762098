------------------------------- MODULE Layout -------------------------------
(* Assemblies of components which the configuration generators write: every face of every mesh is  *)
(* closed exactly once, by an interface or by the global boundary; an interface joins two faces    *)
(* that lie on each other, and its reference port describes exactly that pair.                     *)
EXTENDS Integers, Sequences, FiniteSets
\* a file f: comps (names), meshes (component of every mesh, from 0), conf (placements in thousandths),
\* ports [name, full, c1, c2, a1, a2, conf], ifs <<m1, m2, a1, a2, port>>, bdr <<g, m, a>>; all from 0
Range(s) == {s[i] : i \in 1..Len(s)}
NM(f) == Len(f.meshes)
Name(f, m) == f.comps[f.meshes[m + 1] + 1]
At(f, m) == f.conf[m + 1]
Hole == 5
HasHole(f, m) == Name(f, m) \notin {"empty"}
Faces(f, m, hole) == IF hole[m + 1] THEN 1..5 ELSE 1..4
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
\* closures of a face
Closed(f, m, a) == Cardinality({i \in 1..Len(f.bdr) : f.bdr[i][2] = m /\ f.bdr[i][3] = a})
                 + Cardinality({i \in 1..Len(f.ifs) : f.ifs[i][1] = m /\ f.ifs[i][3] = a})
                 + Cardinality({i \in 1..Len(f.ifs) : f.ifs[i][2] = m /\ f.ifs[i][4] = a})
Same(x, y, per) == IF per = 0 THEN x = y ELSE (x - y) % per = 0
Formed(f) == /\ f.extra = 0 /\ Len(f.conf) = NM(f) /\ NM(f) > 0
             /\ Distinct(f.comps) /\ \A i \in 1..NM(f) : f.meshes[i] \in 0..(Len(f.comps) - 1)
             /\ Distinct([i \in 1..Len(f.ports) |-> f.ports[i].name])
             /\ \A i \in 1..Len(f.ifs) : LET r == f.ifs[i] IN {r[1], r[2]} \subseteq 0..(NM(f) - 1) /\ r[5] \in 0..(Len(f.ports) - 1)
             /\ \A i \in 1..Len(f.bdr) : f.bdr[i][2] \in 0..(NM(f) - 1)
\* faces: the set of faces of every mesh
Complete(f, faces) == /\ \A m \in 0..(NM(f) - 1) : \A a \in faces[m + 1] : Closed(f, m, a) = 1
                      /\ \A i \in 1..Len(f.bdr) : f.bdr[i][3] \in faces[f.bdr[i][2] + 1]
                      /\ \A i \in 1..Len(f.ifs) : f.ifs[i][3] \in faces[f.ifs[i][1] + 1] /\ f.ifs[i][4] \in faces[f.ifs[i][2] + 1]
Kind(f, r) == <<Name(f, r[1]), Name(f, r[2]), r[3], r[4]>>
\* an interface's reference port stands for its components and faces; a described port also for the placement
Ported(f, per) ==
  /\ \A i \in 1..Len(f.ifs) : LET r == f.ifs[i]  p == f.ports[r[5] + 1] IN
        p.full => /\ <<p.c1, p.c2, p.a1, p.a2>> = Kind(f, r)
                  /\ \A k \in 1..6 : Same(At(f, r[2])[k] - At(f, r[1])[k], p.conf[k], IF k <= 2 THEN per[k] ELSE 0)
  /\ \A i, j \in 1..Len(f.ifs) : (f.ifs[i][5] = f.ifs[j][5]) <=> (Kind(f, f.ifs[i]) = Kind(f, f.ifs[j]))
  /\ \A i, j \in 1..Len(f.ports) : f.ports[i].full /\ f.ports[j].full /\ <<f.ports[i].c1, f.ports[i].c2, f.ports[i].a1, f.ports[i].a2>> = <<f.ports[j].c1, f.ports[j].c2, f.ports[j].a1, f.ports[j].a2>> => i = j

\* the outward direction of a side of a square (2) or cube (3)
Dir(d, a) == IF d = 2 THEN (CASE a = 1 -> <<0, -1, 0>> [] a = 2 -> <<1, 0, 0>> [] a = 3 -> <<0, 1, 0>> [] OTHER -> <<-1, 0, 0>>)
             ELSE (CASE a = 1 -> <<0, 0, -1>> [] a = 2 -> <<0, -1, 0>> [] a = 3 -> <<1, 0, 0>> [] a = 4 -> <<0, 1, 0>> [] a = 5 -> <<-1, 0, 0>> [] OTHER -> <<0, 0, 1>>)
Opp(d, a, b) == \A k \in 1..3 : Dir(d, a)[k] = 0 - Dir(d, b)[k]
Sides(d) == 1..(2 * d)
\* cells of unit size s at the integer places of `places`, joined wherever two of them touch (also across a period)
Wrap(x, p) == IF p = 0 THEN x ELSE x % p
Beside(c, d, a, per) == [k \in 1..3 |-> Wrap(c[k] + Dir(d, a)[k], IF k <= 2 THEN per[k] ELSE 0)]
Place(f, m, s) == [k \in 1..3 |-> At(f, m)[k] \div s]
Grid(f, d, s, places, per, holes) ==
  /\ Formed(f) /\ NM(f) = Cardinality(places)
  /\ \A m \in 0..(NM(f) - 1) : At(f, m) = [k \in 1..6 |-> IF k <= 3 THEN s * Place(f, m, s)[k] ELSE 0]
  /\ {Place(f, m, s) : m \in 0..(NM(f) - 1)} = places
  /\ Complete(f, [m \in 1..NM(f) |-> Sides(d) \cup IF holes[m] THEN {Hole} ELSE {}])
  /\ Ported(f, [k \in 1..2 |-> s * per[k]])
  /\ \A i \in 1..Len(f.bdr) : LET r == f.bdr[i] IN r[1] = r[3] /\ (r[3] \in Sides(d) => Beside(Place(f, r[2], s), d, r[3], per) \notin places)
  /\ \A i \in 1..Len(f.ifs) : LET r == f.ifs[i] IN Opp(d, r[3], r[4]) /\ Beside(Place(f, r[1], s), d, r[3], per) = Place(f, r[2], s)
Rect(nx, ny) == {[k \in 1..3 |-> IF k = 1 THEN i ELSE IF k = 2 THEN j ELSE 0] : i \in 0..(nx - 1), j \in 0..(ny - 1)}
Holed(f) == [m \in 1..NM(f) |-> HasHole(f, m - 1)]

\* a box of nx by ny squares, made of components of the given list, all of which are used
Box(f, b) == /\ Grid(f, 2, 1000, Rect(b.nx, b.ny), <<IF b.px THEN b.nx ELSE 0, IF b.py THEN b.ny ELSE 0>>, Holed(f))
             /\ Range(f.comps) \subseteq Range(b.comps) /\ {f.meshes[i] : i \in 1..NM(f)} = 0..(Len(f.comps) - 1)
             /\ \A i \in 1..Len(f.ports) : LET p == f.ports[i] IN p.full /\ {p.c1, p.c2} \subseteq Range(f.comps) /\ Opp(2, p.a1, p.a2)
                                           /\ p.conf = [k \in 1..6 |-> IF k <= 3 THEN 1000 * Dir(2, p.a1)[k] ELSE 0]
\* a port for every pair of components that may lie side by side
AllPairs(f) == \A c \in Range(f.comps) : \A d \in Range(f.comps) : \A a \in {1, 2} :
                 \E i \in 1..Len(f.ports) : <<f.ports[i].c1, f.ports[i].c2, f.ports[i].a1>> = <<c, d, a>> \/ <<f.ports[i].c2, f.ports[i].c1, f.ports[i].a2>> = <<c, d, a>>
\* who lies where
Content(f) == {<<Place(f, m, 1000)[1], Place(f, m, 1000)[2], Name(f, m)>> : m \in 0..(NM(f) - 1)}
\* a channel: a path of squares that does not cross itself, flow enters on the left of the first and leaves the last opposite to where it came in
Step(f, i) == [k \in 1..3 |-> Place(f, i, 1000)[k] - Place(f, i - 1, 1000)[k]]
In(f, i) == IF i = 0 THEN 4 ELSE CHOOSE a \in 1..4 : \A k \in 1..3 : Dir(2, a)[k] = 0 - Step(f, i)[k]
Out(f, i) == IF i = NM(f) - 1 THEN CHOOSE a \in 1..4 : Opp(2, a, In(f, i)) ELSE CHOOSE a \in 1..4 : Dir(2, a) = Step(f, i + 1)
Row(f, g, m, a) == \E i \in 1..Len(f.bdr) : f.bdr[i] = <<g, m, a>>
Channel(f, start, n) ==
  /\ Formed(f) /\ f.comps = <<start>> /\ NM(f) = n + 1
  /\ Distinct([i \in 1..NM(f) |-> f.conf[i]]) /\ f.conf[1] = [k \in 1..6 |-> 0]
  /\ \A i \in 1..n : \E a \in 1..4 : Step(f, i) = Dir(2, a)
  /\ Complete(f, [m \in 1..NM(f) |-> 1..4 \cup IF start = "empty" THEN {} ELSE {Hole}])
  /\ Ported(f, <<0, 0>>)
  /\ Len(f.ifs) = n
  /\ \A i \in 1..n : \E r \in Range(f.ifs) : \/ r[1] = i - 1 /\ r[2] = i /\ r[3] = Out(f, i - 1) /\ r[4] = In(f, i)
                                             \/ r[2] = i - 1 /\ r[1] = i /\ r[4] = Out(f, i - 1) /\ r[3] = In(f, i)
  /\ Row(f, 4, 0, 4) /\ Row(f, 2, n, Out(f, n))
  /\ \A m \in 0..n : LET w == 1..4 \ {In(f, m), Out(f, m)} IN
        /\ {f.bdr[i][1] : i \in {j \in 1..Len(f.bdr) : f.bdr[j][2] = m /\ f.bdr[j][3] \in w}} = {1, 3}
        /\ start # "empty" => Row(f, Hole, m, Hole)
Path(f) == [i \in 1..NM(f) |-> <<Place(f, i - 1, 1000)[1], Place(f, i - 1, 1000)[2]>>]
\* all such paths of n steps
RECURSIVE Walks(_)
Walks(n) == IF n = 0 THEN {<< <<0, 0>> >>}
            ELSE {w \in UNION {{Append(w, <<w[n][1] + Dir(2, a)[1], w[n][2] + Dir(2, a)[2]>>) : a \in 1..4} : w \in Walks(n - 1)} : Distinct(w) /\ w[2] # <<-1, 0>>}

\* a frame of joints and rods: nx by ny openings; sizes in thousandths
\* every face on the frame's outer side (before it is turned) carries that side's attribute, faces towards an opening 5
Turn(j, g) == IF g = 5 THEN 5 ELSE ((g - 1 - j) % 4) + 1
Frame(f, q, j) ==
  LET Px == q.lh + q.wv   Py == q.lv + q.wh
      J == {<<0, x * Px, y * Py>> : x \in 0..q.nx, y \in 0..q.ny}
      H == {<<1, x * Px + q.wv, y * Py>> : x \in 0..(q.nx - 1), y \in 0..q.ny}
      V == {<<2, x * Px, y * Py + q.wh>> : x \in 0..q.nx, y \in 0..(q.ny - 1)}
      What(m) == <<f.meshes[m + 1], At(f, m)[1], At(f, m)[2]>>
      W(t) == IF t = 1 THEN q.lh ELSE q.wv
      Ht(t) == IF t = 2 THEN q.lv ELSE q.wh
      Right(w) == w[2] + W(w[1])
      Top(w) == w[3] + Ht(w[1])
      \* the place touching a side of a mesh
      Touch(w, a, v) == CASE a = 1 -> Top(v) = w[3] /\ v[2] = w[2] /\ W(v[1]) = W(w[1])
                          [] a = 2 -> v[2] = Right(w) /\ v[3] = w[3] /\ Ht(v[1]) = Ht(w[1])
                          [] a = 3 -> v[3] = Top(w) /\ v[2] = w[2] /\ W(v[1]) = W(w[1])
                          [] OTHER -> Right(v) = w[2] /\ v[3] = w[3] /\ Ht(v[1]) = Ht(w[1])
      Outer(w, a) == CASE a = 1 -> w[3] = 0 [] a = 2 -> Right(w) = q.nx * Px + q.wv [] a = 3 -> Top(w) = q.ny * Py + q.wh [] OTHER -> w[2] = 0
  IN  /\ Formed(f) /\ f.comps = q.comps
      /\ NM(f) = Cardinality(J) + Cardinality(H) + Cardinality(V)
      /\ {What(m) : m \in 0..(NM(f) - 1)} = J \cup H \cup V
      /\ \A m \in 0..(NM(f) - 1) : \A k \in 3..6 : At(f, m)[k] = 0
      /\ Complete(f, [m \in 1..NM(f) |-> 1..4]) /\ Ported(f, <<0, 0>>)
      /\ \A i \in 1..Len(f.ports) : f.ports[i].full
      /\ \A i \in 1..Len(f.ifs) : LET r == f.ifs[i] IN Opp(2, r[3], r[4]) /\ Touch(What(r[1]), r[3], What(r[2]))
      /\ \A i \in 1..Len(f.bdr) : LET r == f.bdr[i]  w == What(r[2]) IN
            /\ \A v \in J \cup H \cup V : ~(Touch(w, r[3], v) /\ (v[1] = 0) # (w[1] = 0))
            /\ r[1] = Turn(j, IF Outer(w, r[3]) THEN r[3] ELSE 5)
\* three pieces in an L, loaded at its two ends
Ell(f) == /\ Formed(f) /\ f.meshes = <<0, 1, 2>>
          /\ Complete(f, [m \in 1..3 |-> 1..4]) /\ Ported(f, <<0, 0>>) /\ Len(f.ifs) = 2
          /\ \A i \in 1..Len(f.ifs) : LET r == f.ifs[i] IN Opp(2, r[3], r[4]) /\ Beside(Place(f, r[1], 1000), 2, r[3], <<0, 0>>) = Place(f, r[2], 1000) /\ f.ports[r[5] + 1].full
          /\ {Place(f, m, 1000) : m \in 0..2} = {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>}
          /\ \A i \in 1..Len(f.bdr) : LET r == f.bdr[i] IN
               r[1] = IF r[3] = 2 /\ Place(f, r[2], 1000)[1] = 1 THEN 1 ELSE IF r[3] = 3 /\ Place(f, r[2], 1000)[2] = 1 THEN 2 ELSE 3
\* the sample layouts
Sample(f, what, n) ==
  LET Hl(N(_)) == [m \in 1..NM(f) |-> N(Name(f, m - 1))] IN
  CASE what = "scaleup" -> Grid(f, 2, 1000, Rect(n, n), <<0, 0>>, Hl(LAMBDA c : FALSE))
    [] what = "channel" -> Grid(f, 2, 1000, Rect(2, 2), <<0, 0>>, Hl(LAMBDA c : c # "empty"))
    [] what = "multi" -> Grid(f, 2, 1000, {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>}, <<0, 0>>, Hl(LAMBDA c : c # "empty"))
    [] what = "two" -> Grid(f, 2, 1000, Rect(2, 2), <<0, 0>>, Hl(LAMBDA c : FALSE))
    [] OTHER -> Grid(f, 3, 500, {<<i, j, k>> : i \in 0..1, j \in 0..1, k \in 0..1}, <<0, 0>>, Hl(LAMBDA c : FALSE))

VARIABLES obj,      \* what was asked for
          left,     \* files still to come; -1: one for every possibility
          seen,     \* possibilities written so far
          names,    \* their file names
          last      \* the previous file of this object
lvars == <<obj, left, seen, names, last>>
LInit == obj = <<>> /\ left = 0 /\ seen = {} /\ names = <<>> /\ last = <<>>
Ask(o) == left = 0 /\ obj' = o /\ last' = <<>> /\ UNCHANGED <<left, seen, names>>
Op(n) == left = 0 /\ left' = n /\ seen' = {} /\ names' = <<>> /\ UNCHANGED <<obj, last>>
\* one file: it must be right; of an enumeration, one not written before under a name not used before
Wrote(ok, name, key, f) == /\ left # 0 /\ ok /\ last' = f /\ UNCHANGED obj
                           /\ IF left = -1 THEN key \notin seen /\ name \notin Range(names) /\ seen' = seen \cup {key} /\ names' = Append(names, name) /\ UNCHANGED left
                              ELSE left' = left - 1 /\ UNCHANGED <<seen, names>>
AllOf(count, want) == left = -1 /\ count = Cardinality(seen) /\ count = want /\ left' = 0 /\ UNCHANGED <<obj, seen, names, last>>
End == left = 0 /\ UNCHANGED lvars
=============================================================================
