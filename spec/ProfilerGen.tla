---------------------------- MODULE ProfilerGen ----------------------------
(* Histories: correct use on every rank, misuse attempts, collective reports.     *)
EXTENDS Profiler, Json, Randomization
CONSTANT L
VARIABLES st, sc
One(X) == RandomSubset(1, X)
NameSeq == <<"alpha", "beta", "solve", "a name", "x">>
Order(n) == CHOOSE i \in 1..Len(NameSeq) : NameSeq[i] = n
\* ranks meet the names in the same order
May(r, n) == n \in Known(r) \/ Order(n) = Len(known[r]) + 1
Log(op, r, n, k) == sc' = Append(sc, [op |-> op, r |-> r, n |-> n, k |-> k])
Init == PInit /\ st = 0 /\ sc = <<>>
Lead == CHOOSE r \in Ranks : \A q \in Ranks : Len(known[r]) >= Len(known[q])
Go == \E r \in One(Ranks), n \in One({"alpha", "beta", "solve", "a name", "x"}), k \in One(0..9) :
      IF k >= 7 \* try something wrong
      THEN UNCHANGED pvars /\ (IF n \in running[r] THEN Log("BadStart", r, n, k) ELSE Log("BadStop", r, n, k))
      ELSE IF k = 6 /\ running[r] # {} THEN UNCHANGED pvars /\ Log("BadPrint", r, n, k)
      ELSE IF n \in running[r] THEN Stop(r, n, 0, 0) /\ Log("Stop", r, n, k)
      ELSE IF May(r, n) THEN Start(r, n) /\ Log("Start", r, n, k) ELSE UNCHANGED <<pvars, sc>>
\* closing: stop everything, let all ranks know the same names, report
Close == IF \E r \in Ranks : running[r] # {}
         THEN LET r == CHOOSE r \in Ranks : running[r] # {} n == CHOOSE n \in running[r] : TRUE IN Stop(r, n, 0, 0) /\ Log("Stop", r, n, 1)
         ELSE LET r == CHOOSE r \in Ranks : known[r] # known[Lead] n == NameSeq[Len(known[r]) + 1] IN Start(r, n) /\ Log("Start", r, n, 1)
Closed == (\A r \in Ranks : running[r] = {}) /\ \A r \in Ranks : known[r] = known[Lead]
Next == \/ st % L # L - 1 /\ st < 3 * L /\ st' = st + 1 /\ Go
        \/ st % L = L - 1 /\ ~Closed /\ Close /\ UNCHANGED st
        \/ st % L = L - 1 /\ Closed /\ st' = st + 1 /\ \E k \in One(0..3) : Log("Print", 0, "", k) /\ UNCHANGED pvars
        \/ st = 3 * L /\ st' = st + 1 /\ \E k \in One(0..3) : Log("End", 0, "", k) /\ UNCHANGED pvars
        \/ st = 3 * L + 1 /\ st' = st + 1 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED <<pvars, sc>>
Spec == Init /\ [][Next]_<<pvars, st, sc>>
=============================================================================
