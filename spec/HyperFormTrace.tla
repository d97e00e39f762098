--------------------------- MODULE HyperFormTrace ---------------------------
EXTENDS HyperForm, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ smp = <<>> /\ disk = <<>> /\ basis = <<>> /\ coef = <<>>
TBegin == Is("Begin") /\ smp' = <<>> /\ disk' = <<>> /\ basis' = <<>> /\ coef' = <<>>
\* owners: component form c; interface form at reference port rp
Own(o) == [k |-> o.k, i |-> o.i, c |-> o.c]
TBasis == Is("Basis") /\ SetBasis(E.c, E.b)
TSample == Is("Sample") /\ Sample(Own(E.o), E.t, E.k, E.s)
\* what the form reports as its points
TLook == Is("Look") /\ TRUE = (smp[<<Own(E.o), E.t, E.k>>] = E.s) /\ UNCHANGED hv
TSave == Is("Save") /\ Save(E.slot, Own(E.o))
TLoad == Is("Load") /\ Load(E.slot, Own(E.o))
TPre == Is("Pre") /\ Precompute
\* one reduced form at one state: parts are the integrators, with the owner of their points; each part's table gives the
\* contributions to the residual (P) and to the Jacobian applied to a direction (D); outputs are added to y0, g0
Part(x) == smp[<<Own(x.o), x.t, x.k>>]
Good(x) == \A i \in 1..Len(Part(x)) : Has(x.P, Part(x)[i]) /\ Has(x.D, Part(x)[i])
TotalAt(parts, j, D) == Sum([n \in 1..Len(parts) |-> LET x == parts[n] IN
   Sum([m \in 1..Len(x.at) |-> IF x.at[m] = j THEN Points(IF D THEN x.D ELSE x.P, Part(x), m) ELSE 0])])
SlackAt(parts, j, D) == Sum([n \in 1..Len(parts) |-> LET x == parts[n] IN
   Sum([m \in 1..Len(x.at) |-> IF x.at[m] = j THEN Slack(IF D THEN x.D ELSE x.P, Part(x), m) ELSE 0])])
TEval == Is("Eval") /\ UNCHANGED hv /\ TRUE = (
           /\ \A n \in 1..Len(E.parts) : Good(E.parts[n]) /\ (E.fast => Ready(Own(E.parts[n].o)))
           /\ \A j \in 1..Len(E.y) : Abs(E.y[j] - (E.y0[j] + TotalAt(E.parts, j, FALSE))) <= 4 + SlackAt(E.parts, j, FALSE)
           /\ \A j \in 1..Len(E.g) : Abs(E.g[j] - (E.g0[j] + TotalAt(E.parts, j, TRUE))) <= 4 + SlackAt(E.parts, j, TRUE)
           /\ E.same)
\* training one integrator: tables G per training state; pts are the points with weights in units of 1/WT, w the rule's
\* weights in the same unit
Whole(tab, w, j) == Sum([e \in 1..Len(tab) |-> Sum([q \in 1..Len(tab[e]) |-> w[q] * tab[e][q][j]])])
Blur(tab, w, j) == Sum([e \in 1..Len(tab) |-> Sum([q \in 1..Len(tab[e]) |-> (Abs(w[q]) + Abs(tab[e][q][j])) \div 2 + 1])])
Pos(v) == IF v < 0 THEN 0 ELSE v
Max(S) == CHOOSE m \in S : \A n \in S : n <= m
Min2(a, b) == IF a < b THEN a ELSE b
Res(x, i, j) == Pos(Abs(Points(x.G[i], x.pts, j) - Whole(x.G[i], x.w, j)) - (Slack(x.G[i], x.pts, j) + Blur(x.G[i], x.w, j) + 4))
Rhs(x, i, j) == Abs(Whole(x.G[i], x.w, j)) + Blur(x.G[i], x.w, j) + 4
Within(x, tol, crit) ==
  LET nj == x.nj
      n == Len(x.G) * nj
      R == [m \in 1..n |-> Res(x, 1 + ((m - 1) \div nj), 1 + ((m - 1) % nj))]
      B == [m \in 1..n |-> Rhs(x, 1 + ((m - 1) \div nj), 1 + ((m - 1) % nj))]
      u == 1 + (Max({B[m] : m \in 1..n}) \div 4096)
      b2 == Sum([m \in 1..n |-> ((B[m] \div u) + 1) * ((B[m] \div u) + 1)])
      r2 == Sum([m \in 1..n |-> Min2(R[m] \div u, 8192) * Min2(R[m] \div u, 8192)])
  IN IF crit = "linf" THEN \A m \in 1..n : R[m] <= ((B[m] \div TU) + 1) * tol
     ELSE r2 <= ((b2 \div (TU * TU)) + 1) * (tol * tol)
Trained(x, tol, crit) ==
  /\ Len(x.s) = Len(x.pts) /\ Len(x.pos) = Len(x.s) /\ Distinct(x.s)
  /\ \A i \in 1..Len(x.s) : /\ x.pos[i] /\ <<x.s[i][1], x.s[i][2]>> = <<x.pts[i][1], x.pts[i][2]>>
                            /\ \A t \in 1..Len(x.G) : Has(x.G[t], x.pts[i])
  /\ Within(x, tol, crit)
TTrain == Is("Train") /\ TRUE = (\A n \in 1..Len(E.parts) : Trained(E.parts[n], E.tol, E.crit))
          /\ smp' = [y \in DOMAIN smp \cup {<<Own(E.o), E.parts[n].t, E.parts[n].k>> : n \in 1..Len(E.parts)} |->
                       IF \E n \in 1..Len(E.parts) : y = <<Own(E.o), E.parts[n].t, E.parts[n].k>>
                       THEN E.parts[CHOOSE n \in 1..Len(E.parts) : y = <<Own(E.o), E.parts[n].t, E.parts[n].k>>].s ELSE smp[y]]
          /\ coef' = [y \in DOMAIN smp' |-> IF y[1] = Own(E.o) THEN <<>> ELSE coef[y]]
          /\ UNCHANGED <<disk, basis>>
\* the coordinates written for the sampled points of a domain integrator
TCoords == Is("Coords") /\ UNCHANGED hv /\ TRUE = (
             LET s == smp[<<Own(E.o), 0, E.k>>] IN
             /\ Len(E.x) = Len(s)
             /\ \A i \in 1..Len(s) : Has(E.at, s[i]) /\ \A d \in 1..3 : Abs(E.x[i][d] - (IF d <= E.dim THEN E.at[s[i][1] + 1][s[i][2] + 1][d] ELSE 0)) <= 1)
\* misuse is refused
TRefuse == Is("Refuse") /\ E.refused /\ UNCHANGED hv
TEnd == Is("End") /\ UNCHANGED hv
TNext == TBegin \/ TBasis \/ TSample \/ TLook \/ TSave \/ TLoad \/ TPre \/ TEval \/ TTrain \/ TCoords \/ TRefuse \/ TEnd
TSpec == TInit /\ [][TNext]_<<hv, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
