--------------------------- MODULE WeakFormsTrace ---------------------------
EXTENDS WeakForms, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
Bound == 600000
TInit == l = 1 /\ args = <<>>
TBegin == Is("Begin") /\ args' = <<>>
Shape(p, n) == Len(p) = n /\ \A i \in 1..n : Abs(p[i]) <= Bound
TArg == Is("Arg") /\ TRUE = (Len(E.P) >= 1 /\ Len(E.P) = Len(E.D) /\ \A q \in 1..Len(E.P) : Shape(E.P[q], Len(E.B)) /\ Shape(E.D[q], Len(E.B)))
        /\ args' = Append(args, [B |-> E.B, P |-> E.P, D |-> E.D])
TFull == Is("Full") /\ TRUE = Full(E.a, E.y) /\ UNCHANGED args
TGrad == Is("Grad") /\ TRUE = Grad(E.a, E.y) /\ UNCHANGED args
TPoint == Is("Point") /\ TRUE = Point(E.a, E.q, E.k, E.y) /\ UNCHANGED args
TGPoint == Is("GPoint") /\ TRUE = GPoint(E.a, E.q, E.k, E.y) /\ UNCHANGED args
TFastV == Is("FastV") /\ TRUE = FastV(E.a, E.q, E.k, E.y0, E.y) /\ UNCHANGED args
TFastG == Is("FastG") /\ TRUE = FastG(E.a, E.q, E.k, E.y0, E.y) /\ UNCHANGED args
TDeriv == Is("Deriv") /\ TRUE = Deriv(E.a, E.y) /\ UNCHANGED args
TEnd == Is("End") /\ UNCHANGED args
TNext == TBegin \/ TArg \/ TFull \/ TGrad \/ TPoint \/ TGPoint \/ TFastV \/ TFastG \/ TDeriv \/ TEnd
TSpec == TInit /\ [][TNext]_<<args, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
