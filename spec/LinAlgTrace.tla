---------------------------- MODULE LinAlgTrace ----------------------------
(* Every kernel call recorded from the real code gives what the definition says, and leaves its inputs alone. *)
EXTENDS LinAlg, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = "Op" /\ E.op = e /\ l' = l + 1
Right(e) ==
  CASE e.op = "MultSub" -> e.y = Mul(Pick(e.M, e.rows), e.x)
    [] e.op = "MultTSub" -> e.y = MulT(Pick(e.M, e.rows), e.x)
    [] e.op = "AddMultTSub" -> e.y = VAdd(e.y0, MulT(Pick(e.M, e.rows), e.x))
    [] e.op \in {"SubRAPd", "SubRAPs"} -> e.Z = MAdd(e.Z0, RAP(Pick(e.R, e.rows), e.A, Pick(e.P, e.prows)))
    [] e.op \in {"RAP", "RAPd", "RAPs"} -> e.Z = RAP(e.R, e.A, e.P)
    [] e.op \in {"AddRAPd", "AddRAPs"} -> e.Z = MAdd(e.Z0, MScale(e.w, RAP(e.R, e.A, e.P)))
    [] e.op = "Contract" -> e.y = Contract(e.T, e.x, e.z)
    [] e.op = "AddContract" -> e.y = VAdd(e.y0, [k \in 1..TK(e.T) |-> e.w * Contract(e.T, e.x, e.z)[k]])
    [] e.op = "TMult" -> e.Z = OnK(e.T, e.x)
    [] e.op = "TOnJ" -> e.Z = MAdd(e.Z0, OnJ(e.T, e.x))
    [] e.op = "TT0" -> e.Z = MAdd(e.Z0, OnIt(e.T, e.x))
    [] e.op = "TT1" -> e.Z = MAdd(e.Z0, OnJt(e.T, e.x))
    [] e.op = "TTs0" -> e.Z = MAdd(e.Z0, MScale(e.w, OnIt(e.T, e.x)))
    [] e.op = "TTs1" -> e.Z = MAdd(e.Z0, MScale(e.w, OnJt(e.T, e.x)))
    [] e.op = "Basis" -> e.y = [r \in 1..Len(e.rows) |-> IF e.rows[r] > 0 THEN e.M[e.rows[r]][e.col] ELSE -e.M[-e.rows[r]][e.col]]
    [] e.op \in {"PrintD", "PrintS", "PrintB", "PrintV"} -> e.Z = e.M
    [] OTHER -> FALSE
TInit == l = 1
TNext == \/ l <= Len(Trace) /\ E.event = "Begin" /\ l' = l + 1
         \/ l <= Len(Trace) /\ E.event = "Op" /\ TRUE = (Right(E) /\ E.kept) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
