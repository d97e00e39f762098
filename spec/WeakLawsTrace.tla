--------------------------- MODULE WeakLawsTrace ---------------------------
EXTENDS WeakLaws, TLC, Json, IOUtils
VARIABLES l, ses
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
Bound == 600000
MultB(B, c) == [i \in 1..Len(B) |-> Sum([m \in 1..Len(c) |-> B[i][m] * c[m]])]
Total(P) == [i \in 1..Len(P[1]) |-> Sum([q \in 1..Len(P) |-> P[q][i]])]
Shape(p, n) == Len(p) = n /\ \A i \in 1..n : Abs(p[i]) <= Bound
Obj(a, F) == [integ |-> ses.integ, kind |-> a.kind, nd1 |-> a.nd1, nd2 |-> a.nd2, dim |-> ses.dim, x |-> MultB(a.B, a.xr), F |-> F, const |-> a.const, c |-> a.c, cN |-> a.cN]
TInit == l = 1 /\ ses = [integ |-> "none", dim |-> 0, args |-> <<>>]
TBegin == Is("Begin") /\ ses' = [integ |-> E.integ, dim |-> E.dim, args |-> <<>>]
TArg == Is("Arg") /\ ses' = [ses EXCEPT !.args = Append(@, [kind |-> E.kind, nd1 |-> E.nd1, nd2 |-> E.nd2, B |-> E.B, xr |-> E.xr, const |-> E.const, c |-> E.c, cN |-> E.cN])]
TFull == Is("Full") /\ TRUE = (Shape(E.y, Len(ses.args[E.a].B)) /\ Law(Obj(ses.args[E.a], E.y))) /\ UNCHANGED ses
TUniform == Is("Uniform") /\ TRUE = (\A i \in 1..Len(E.r) : Steady(E.r[i])) /\ UNCHANGED ses
TEnd == Is("End") /\ UNCHANGED ses
TNext == TBegin \/ TArg \/ TFull \/ TUniform \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, ses>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
