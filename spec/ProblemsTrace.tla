--------------------------- MODULE ProblemsTrace ---------------------------
EXTENDS Problems, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ prob = "" /\ vars = <<>> /\ battr = <<>> /\ bdr = <<>> /\ fbdr = <<>>
Name == prob
State == TRUE = (/\ E.name = prob' /\ E.np = NumParams(prob') /\ E.vars = vars' /\ E.battr = battr' /\ E.bdr = bdr' /\ E.fbdr = fbdr')
Pairs(ns, vs) == [i \in 1..Len(ns) |-> <<Index(prob, ns[i]), vs[i]>>]
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 4 + Abs(b[i]) \div 2000
Held(s, i) == IF i > Len(Slots(prob)[s]) THEN "" ELSE Slots(prob)[s][i]
TNext == \/ Is("Begin") /\ prob' = "" /\ vars' = E.vars /\ battr' = <<>> /\ bdr' = <<>> /\ fbdr' = <<>>
         \/ Is("New") /\ New(E.p) /\ State
            /\ TRUE = (\A s \in DOMAIN E.slots : E.slots[s] = [i \in 1..Len(Slots(E.p)[s]) |-> Slots(E.p)[s][i] # ""])
         \/ Is("Name") /\ Set(Pairs(<<E.n>>, <<E.v>>)) /\ State /\ E.ix = Index(prob, E.n)
         \/ Is("Index") /\ Set([i \in 1..Len(E.ix) |-> <<E.ix[i], E.v[i]>>]) /\ State
         \/ Is("Single") /\ Set(Pairs(E.n, E.v)) /\ State
         \* refused for a reason: an unknown name, a value out of range, mismatched lists, no entry for this problem
         \/ /\ Is("Refused") /\ UNCHANGED pvars
            /\ TRUE = CASE E.what = "name" -> ~HasParam(prob, E.n) \/ ~Allowed(prob, Assign(vars, prob, Pairs(<<E.n>>, <<E.v>>)))
                        [] E.what = "index" -> Len(E.ix) # Len(E.v) \/ ~Allowed(prob, Assign(vars, prob, [i \in 1..Len(E.ix) |-> <<E.ix[i], E.v[i]>>]))
                        [] E.what = "single" -> ~E.there \/ (\E i \in 1..Len(E.n) : ~HasParam(prob, E.n[i])) \/
                              (\E k \in 1..Len(E.n) : ~Allowed(prob, Assign(vars, prob, Pairs(SubSeq(E.n, 1, k), E.v))))
                        [] E.what = "problem" -> E.p \notin Problems
         \* a field of this problem at a point; the components it returned, whatever was in the vector before
         \/ Is("Eval") /\ UNCHANGED pvars /\ LET f == Held(E.s, E.i) IN
              TRUE = (f # "" /\ LET r == Field(f, E.x, E.t, E.x0, E.du) IN E.size = (IF f \in {"zero1"} \/ E.s \in {"srhs", "sbdr", "gs"} THEN 1 ELSE Len(E.x)) /\ (r.ok => Close(E.y, r.v)))
         \/ Is("Spiral") /\ UNCHANGED pvars /\ TRUE = (Spiral(E.m).ok => Close(E.y, Spiral(E.m).v))
TSpec == TInit /\ [][TNext]_<<pvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
