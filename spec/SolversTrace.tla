----------------------------- MODULE SolversTrace ---------------------------
(* Recorded behaviour of the full-order solvers: what they compute, store, restore, compare, show. *)
EXTENDS Solvers, Json, IOUtils
VARIABLES l, P, N, K, on, files, kept, err, show
tv == <<l, P, N, K, on, files, kept, err, show>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
N0 == [nsub |-> 1, nvar |-> 1]
Nothing == [k |-> <<>>, timed |-> FALSE, step |-> 0, time |-> 0]
TInit == l = 1 /\ P = [pde |-> ""] /\ N = N0 /\ K = <<>> /\ on = FALSE /\ files = <<Nothing, Nothing, Nothing>> /\ kept = <<>> /\ err = <<>> /\ show = [cycle |-> 0, time |-> 0]
All(x) == [m \in 1..N.nsub |-> [v \in 1..N.nvar |-> x]]
\* names of the variables, and the offsets of the blocks of a solution (subdomain by subdomain)
Names == IF Flow(P) THEN <<"vel", "pres">> ELSE <<"solution">>
Unset == 1000000                          \* no comparison was made
\* value of factor k times variable v at a point (in 1/32), in 1/1024
Field(v) == Vars(P)[v]
Exact(k, v, x) == [i \in 1..Len(Field(v)) |-> k * (Val(Field(v)[i], x, 32, 2) + (IF v = 1 THEN 512 * N.shift * N.len[i] ELSE 0))]
Matches(k, v, pts) == \A n \in 1..Len(pts) : pts[n][2] = Exact(k, v, pts[n][1])
Shown(k, pts) == /\ Len(pts) = N.nsub * N.nvar
                 /\ \A m \in 1..N.nsub, v \in 1..N.nvar : Len(pts[(m - 1) * N.nvar + v]) > 0 /\ Matches(k[m][v], v, pts[(m - 1) * N.nvar + v])
TNew == /\ Is("New")
        /\ P' = E.P
        /\ N' = E /\ E.nvar = Len(Vars(E.P)) /\ E.nsub = E.nsubs /\ E.nbdr = E.nlabels /\ Len(E.sizes) = E.nsub * E.nvar
        /\ K' = [m \in 1..E.nsub |-> [v \in 1..E.nvar |-> 1]] /\ on' = E.save /\ files' = <<Nothing, Nothing, Nothing>> /\ kept' = <<>>
        /\ err' = [m \in 1..E.nsub |-> [v \in 1..E.nvar |-> Unset]] /\ show' = [cycle |-> 0, time |-> 0]
Same == UNCHANGED <<P, N, K, on, files, kept, err, show>>
TSolve == Is("Solve") /\ E.conv /\ E.mean /\ Incompressible(P) /\ Shown(K, E.pts) /\ Same
TScale == Is("Scale") /\ K' = [K EXCEPT ![E.m + 1][E.v + 1] = @ * E.k] /\ UNCHANGED <<P, N, on, files, kept, err, show>>
TMode == Is("Mode") /\ on' = E.on /\ UNCHANGED <<P, N, K, files, kept, err, show>>
\* a disabled save leaves the file as it was
TSave == /\ Is("Save") /\ E.ok
         /\ files' = IF on THEN [files EXCEPT ![E.f + 1] = [k |-> K, timed |-> E.timed, step |-> E.step, time |-> E.time]] ELSE files
         /\ E.exists = (files'[E.f + 1].k # <<>>)
         /\ UNCHANGED <<P, N, K, on, kept, err, show>>
TLoad == /\ Is("Load")
         /\ LET f == files[E.f + 1] IN
            /\ E.ok = (f.k # <<>> /\ (E.timed => f.timed))
            /\ K' = (IF E.ok THEN f.k ELSE K)
            /\ (E.ok => Shown(K', E.pts))
            /\ ((E.ok /\ E.timed) => E.step = f.step /\ E.time = f.time)
         /\ UNCHANGED <<P, N, on, files, kept, err, show>>
TKeep == Is("Keep") /\ kept' = K /\ UNCHANGED <<P, N, K, on, files, err, show>>
TCopy == Is("Copy") /\ kept # <<>> /\ K' = kept /\ Shown(K', E.pts) /\ UNCHANGED <<P, N, on, files, kept, err, show>>
TPoints == Is("Points") /\ Shown(K, E.pts) /\ Same
RECURSIVE Upto(_)
Upto(b) == IF b = 0 THEN 0 ELSE N.sizes[b] + Upto(b - 1)
NB == N.nsub * N.nvar
Blk(m, v) == (m - 1) * N.nvar + v
Whole(b) == <<N.sizes[b], Upto(b - 1), Upto(b) - 1>>
Added(x) == <<x[1], x[2] + 1000, x[3] + 1000>>
\* views of one variable, and the two orders of the same blocks
TVars == /\ Is("Vars")
         /\ LET orig == [b \in 1..NB |-> Whole(b)] IN
            /\ E.orig = orig /\ E.back = orig
            /\ E.var = [m \in 1..N.nsub |-> orig[Blk(m, E.v + 1)]]
            /\ E.set = [b \in 1..NB |-> IF ((b - 1) % N.nvar) = E.v THEN Added(orig[b]) ELSE orig[b]]
            /\ E.by = [b \in 1..NB |-> orig[Blk(((b - 1) % N.nsub) + 1, ((b - 1) \div N.nsub) + 1)]]
         /\ Same
\* snapshots: one block per subdomain, or per subdomain and variable, each with the name of its basis
TSnap == /\ Is("Snap") /\ E.vars = Names
         /\ IF N.sep THEN /\ E.tags = [b \in 1..NB |-> E.names[((b - 1) \div N.nvar) + 1] \o "_" \o Names[((b - 1) % N.nvar) + 1]]
                          /\ E.off = [b \in 1..NB |-> Upto(b - 1)] /\ E.size = N.sizes
            ELSE /\ E.tags = E.names
                 /\ E.off = [m \in 1..N.nsub |-> Upto((m - 1) * N.nvar)]
                 /\ E.size = [m \in 1..N.nsub |-> Upto(m * N.nvar) - Upto((m - 1) * N.nvar)]
         /\ Same
\* the relative error of a variable against a copy with scaled blocks
Fac(m, v) == IF Blk(m, v) = E.b + 1 THEN E.k2 ELSE E.k
Zero(v) == (\A m \in 1..N.nsub : K[m][v] = 0) \/ (\A i \in 1..Len(Field(v)) : \A n \in 1..Len(Field(v)[i]) : Field(v)[i][n].c = 0)
TCompare == /\ Is("Compare") /\ Len(E.err) = N.nvar
            /\ \A v \in 1..N.nvar : Zero(v) \/ LET S == {Abs(1 - Fac(m, v)) : m \in {x \in 1..N.nsub : K[x][v] # 0}} IN
                  /\ \E a \in S : E.err[v] >= 1000000 * a - 2
                  /\ \E a \in S : E.err[v] <= 1000000 * a + 2
                  \* strictly between when several of them count
            /\ err' = IF N.verr THEN [m \in 1..N.nsub |-> [v \in 1..N.nvar |-> (Fac(m, v) - 1) * K[m][v]]] ELSE err
            /\ UNCHANGED <<P, N, K, on, files, kept, show>>
FieldNames == {Names[v] : v \in 1..N.nvar} \cup (IF N.verr THEN {Names[v] \o "_abs_error" : v \in 1..N.nvar} ELSE {}) \cup (IF P.pde = "advdiff" THEN {"flow"} ELSE {})
\* a collection [cycle, time, fields, written]; f gives the factor of a field's variable, Unset when it is unknown
Flw(pts) == \A n \in 1..Len(pts) : pts[n][2] = [i \in 1..P.dim |-> Val(P.w[i], pts[n][1], 32, 2)]
Coll(cl, k, e) == /\ cl[1] = show'.cycle /\ cl[2] = show'.time /\ cl[4]
                  /\ {cl[3][n][1] : n \in 1..Len(cl[3])} = FieldNames
                  /\ \A n \in 1..Len(cl[3]) : LET nm == cl[3][n][1] pts == cl[3][n][2] IN
                       IF nm = "flow" THEN Flw(pts)
                       ELSE LET v == CHOOSE x \in 1..N.nvar : nm \in {Names[x], Names[x] \o "_abs_error"} IN
                            IF nm = Names[v] THEN k[v] = Unset \/ Matches(k[v], v, pts) ELSE e[v] = Unset \/ Matches(e[v], v, pts)
Uniform(f) == [v \in 1..N.nvar |-> IF \A m \in 1..N.nsub : f[m][v] = f[1][v] THEN f[1][v] ELSE Unset]
TVis == /\ Is("Vis") /\ E.ok
        /\ show' = IF E.timed THEN [cycle |-> E.step, time |-> E.time] ELSE show
        /\ TRUE = (CASE N.vis = "off" -> TRUE
                     [] N.vis = "one" -> Len(E.colls) = 1 /\ Coll(E.colls[1], Uniform(K), Uniform(err))
                     [] OTHER -> /\ Len(E.colls) = N.nsub
                                 /\ \A m \in 1..N.nsub : IF m - 1 >= N.voff /\ ((m - 1) % N.vint) = 0 THEN E.colls[m] # <<>> /\ Coll(E.colls[m], K[m], err[m]) ELSE E.colls[m] = <<>>)
        /\ UNCHANGED <<P, N, K, on, files, kept, err>>
TNext == TNew \/ TSolve \/ TScale \/ TMode \/ TSave \/ TLoad \/ TKeep \/ TCopy \/ TPoints \/ TVars \/ TSnap \/ TCompare \/ TVis
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
