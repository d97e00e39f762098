--------------------------- MODULE CouplingTrace ---------------------------
EXTENDS Coupling, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
\* recorded sparse blocks: sequence of <<i, j, r, c, v>>
Mat(s) == LET K == {<<s[n][1], s[n][2], s[n][3], s[n][4]>> : n \in 1..Len(s)}
              V == {<<<<s[n][1], s[n][2], s[n][3], s[n][4]>>, s[n][5]>> : n \in 1..Len(s)}
          IN  [k \in K |-> (CHOOSE v \in V : v[1] = k)[2]]
Same(M, s) == \* fast comparison: every recorded entry is expected, and no other is nonzero
  /\ \A n \in 1..Len(s) : At(M, <<s[n][1], s[n][2], s[n][3], s[n][4]>>) = s[n][5]
  /\ Cardinality({k \in DOMAIN M : M[k] # 0}) = Cardinality({n \in 1..Len(s) : s[n][5] # 0})
RECURSIVE Offs(_, _)
Offs(s, i) == IF i = 0 THEN 0 ELSE s[i] + Offs(s, i - 1)
TInit == l = 1 /\ topo = [ports |-> <<>>] /\ itg = <<>> /\ mats = Empty
TBegin == Is("Begin") /\ TRUE = (E.off = <<>> \/ E.off = [i \in 1..(Len(E.nd) + 1) |-> Offs(E.nd, i - 1)]) /\ Begin([ports |-> E.ports])
TAdd == Is("Add") /\ AddIntegrator(E.t) /\ TRUE = (E.n = Len(itg) + 1)
TFresh == Is("Fresh") /\ Fresh(Mat(E.m))
TMats == Is("Mats") /\ Assemble /\ TRUE = Same(mats', E.m)
TGrad == Is("Grad") /\ Gradient(E.x) /\ TRUE = (Same(mats', E.m) /\ E.kept)
TMult == Is("Mult") /\ TRUE = E.kept /\ AddMult(E.x, E.y0, E.y1)
TPort == Is("Port") /\ TRUE = (E.h = E.n1) /\ TRUE = Same(Plus(Empty, <<E.p>>, itg, Linear, Zeros(<<E.p>>)), E.m) /\ UNCHANGED cvars
TEnd == Is("End") /\ UNCHANGED cvars
TNext == TBegin \/ TAdd \/ TFresh \/ TMats \/ TGrad \/ TMult \/ TPort \/ TEnd
TSpec == TInit /\ [][TNext]_<<topo, itg, mats, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
