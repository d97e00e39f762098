------------------------------ MODULE Sampling ------------------------------
(* Snapshots taken from sample solutions, sorted by component and variable, the ports between
   them, the files they are written to, and the collections training sessions make of them.

   A snapshot column is the integer  id*10 + sub : sample `id`, subdomain `sub`.
   A tag is <<component, variable>>; variable 0 stands for "not separated".
   A generator is [snaps, ports]: per tag the columns in order; per port tag
   <<component 1, component 2, attribute 1, attribute 2>> the pairs of (0-based) column indices. *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [x \in {} |-> <<>>]
NewGen == [snaps |-> Empty, ports |-> Empty]

At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Put(f, k, s) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN s ELSE f[x]]
Add(f, k, e) == Put(f, k, Append(At(f, k), e))

Vars(nv) == IF nv = 0 THEN <<0>> ELSE [v \in 1..nv |-> v]
NV(nv) == IF nv = 0 THEN 1 ELSE nv

RECURSIVE TakeAll(_, _, _, _, _)
\* blocks are ordered by subdomain, then variable; returns <<snaps, column of each block>>
TakeAll(snaps, types, nv, id, s) ==
  IF s > Len(types) * NV(nv) THEN <<snaps, <<>>>>
  ELSE LET m == (s - 1) \div NV(nv) + 1
           v == Vars(nv)[((s - 1) % NV(nv)) + 1]
           tag == <<types[m], v>>
           now == Add(snaps, tag, id * 10 + m)
           rest == TakeAll(now, types, nv, id, s + 1)
       IN <<rest[1], <<Len(now[tag]) - 1>> \o rest[2]>>

RECURSIVE TakePorts(_, _, _, _, _, _)
TakePorts(ports, types, nv, cols, ps, k) ==
  IF k > Len(ps) THEN ports
  ELSE LET p == ps[k]
           tag == <<types[p[1]], types[p[2]], p[3], p[4]>>
           pair == <<cols[NV(nv) * (p[1] - 1) + 1], cols[NV(nv) * (p[2] - 1) + 1]>>
       IN TakePorts(Add(ports, tag, pair), types, nv, cols, ps, k + 1)

\* one sample: subdomains of component types[m], ports <<m1, m2, attr1, attr2>>
Columns(g, types, nv, id) == TakeAll(g.snaps, types, nv, id, 1)[2]
Sample(g, types, nv, id, ps) ==
  LET t == TakeAll(g.snaps, types, nv, id, 1)
  IN [snaps |-> t[1], ports |-> TakePorts(g.ports, types, nv, t[2], ps, 1)]

\* Files: per prefix and tag a snapshot file, per prefix a port file.
NewDisk == [snaps |-> Empty, ports |-> Empty]
Write(disk, prefix, g) ==
  [snaps |-> [x \in DOMAIN disk.snaps \cup {<<prefix, t>> : t \in DOMAIN g.snaps} |->
                IF x[1] = prefix /\ x[2] \in DOMAIN g.snaps THEN g.snaps[x[2]] ELSE disk.snaps[x]],
   ports |-> Put(disk.ports, prefix, [ports |-> g.ports, tags |-> DOMAIN g.snaps])]

RECURSIVE Load(_, _, _, _)
\* the snapshots of `files` (prefixes), in order, appended to a tag
Load(snaps, disk, tag, files) ==
  IF files = <<>> THEN snaps
  ELSE Load(Put(snaps, tag, At(snaps, tag) \o disk.snaps[<<files[1], tag>>]), disk, tag, Tail(files))
CollectTag(g, disk, tag, files) == [g EXCEPT !.snaps = Load(@, disk, tag, files)]

\* how many snapshots of a component a generator already holds (the same for each variable)
Held(g, comp) == LET ts == {t \in DOMAIN g.snaps : t[1] = comp}
                 IN IF ts = {} THEN 0 ELSE Len(g.snaps[CHOOSE t \in ts : TRUE])
Shift(pairs, a, b) == [i \in 1..Len(pairs) |-> <<pairs[i][1] + a, pairs[i][2] + b>>]
CollectPort(g, disk, prefix) ==
  LET f == disk.ports[prefix]
  IN [ports |-> [t \in DOMAIN g.ports \cup DOMAIN f.ports |->
                   At(g.ports, t) \o (IF t \in DOMAIN f.ports THEN Shift(f.ports[t], Held(g, t[1]), Held(g, t[2])) ELSE <<>>)],
      snaps |-> [t \in DOMAIN g.snaps \cup f.tags |->
                   At(g.snaps, t) \o (IF t \in f.tags THEN disk.snaps[<<prefix, t>>] ELSE <<>>)]]

RECURSIVE CollectPorts(_, _, _)
CollectPorts(g, disk, files) == IF files = <<>> THEN g ELSE CollectPorts(CollectPort(g, disk, files[1]), disk, Tail(files))

\* ---- what a generator promises -----------------------------------------------------------
\* every pair of columns of a port are the two sides of one port of one sample
Paired(g, joined) ==
  \A t \in DOMAIN g.ports : \A i \in 1..Len(g.ports[t]) :
    \A a \in {x \in DOMAIN g.snaps : x[1] = t[1]}, b \in {x \in DOMAIN g.snaps : x[1] = t[2]} :
      LET c1 == g.ports[t][i][1] + 1
          c2 == g.ports[t][i][2] + 1
      IN /\ c1 \in 1..Len(g.snaps[a]) /\ c2 \in 1..Len(g.snaps[b])
         /\ <<g.snaps[a][c1], g.snaps[b][c2], t[3], t[4]>> \in joined
\* the variables of a component are sampled together
Together(g) == \A t, u \in DOMAIN g.snaps : t[1] = u[1] => g.snaps[t] = g.snaps[u]

\* ---- choosing files ----------------------------------------------------------------------
Range(lo, hi) == [i \in 1..(IF hi >= lo THEN hi - lo + 1 ELSE 0) |-> lo + i - 1]
\* an explicit list, then a numbered range; the default when there is neither
Chosen(how, list, lo, hi, default) ==
  LET l == (IF how \in {"list", "both"} THEN list ELSE <<>>) \o (IF how \in {"format", "both"} THEN Range(lo, hi) ELSE <<>>)
  IN IF l = <<>> THEN <<default>> ELSE l

\* ---- sample grids ------------------------------------------------------------------------
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE s[1] * Product(Tail(s))
RECURSIVE Flat(_, _, _)
\* row-major index of a tuple
Flat(sizes, idx, acc) == IF sizes = <<>> THEN acc ELSE Flat(Tail(sizes), Tail(idx), acc * sizes[1] + idx[1])
RECURSIVE Nested(_, _)
Nested(sizes, k) == IF sizes = <<>> THEN <<>>
                    ELSE LET r == Product(Tail(sizes)) IN <<k \div r>> \o Nested(Tail(sizes), k % r)
\* shares of n samples among p ranks: contiguous, in order, sizes differing by at most one
Shares(n, own) == /\ \A r \in 1..Len(own) : Len(own[r]) = n
                  /\ \A s \in 1..n : Cardinality({r \in 1..Len(own) : own[r][s]}) = 1
                  /\ \A r, q \in 1..Len(own) : \A s, u \in 1..n : (own[r][s] /\ own[q][u] /\ s < u) => r <= q
                  /\ \A r, q \in 1..Len(own) : Cardinality({s \in 1..n : own[r][s]}) <= Cardinality({s \in 1..n : own[q][s]}) + 1
=============================================================================
