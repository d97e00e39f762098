---------------------------- MODULE ConfigTrace ----------------------------
(* Accepts exactly the recorded executions of the real parser that are behaviours of Config. *)
EXTENDS Config, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Fun(es) == [p \in {es[i].p : i \in 1..Len(es)} |-> (CHOOSE i \in 1..Len(es) : es[i].p = p)]
Leafs(es) == LET f == Fun(es) IN [p \in DOMAIN f |-> es[f[p]].v]
Row(es) == [k \in {es[i].k : i \in 1..Len(es)} |-> es[CHOOSE i \in 1..Len(es) : es[i].k = k].v]
\* what the parser holds after the call: every leaf of its tree, by text
Dump(d, c) == TRUE = (/\ {d[i].p : i \in 1..Len(d)} = DOMAIN c
              /\ Len(d) = Cardinality(DOMAIN c)
              /\ \A i \in 1..Len(d) : d[i].s = c[d[i].p].s)
TInit == CInit /\ l = 1
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TNext ==
  \/ Is("Begin") /\ cfg' = <<>> /\ rows' = <<>>
  \/ Is("Load") /\ Load(Leafs(E.base), [i \in 1..Len(E.rows) |-> Row(E.rows[i])], [i \in 1..Len(E.ovr) |-> <<E.ovr[i].p, E.ovr[i].v>>])
                /\ Dump(E.dump, cfg')
  \/ Is("Get") /\ Get(E.path, E.fb, E.res) /\ Dump(E.dump, cfg')
  \/ Is("Require") /\ Require(E.path, E.res) /\ Dump(E.dump, cfg')
  \/ Is("Has") /\ Has(E.path, E.res) /\ Dump(E.dump, cfg')
  \/ Is("Set") /\ Set(E.path, E.v) /\ Dump(E.dump, cfg')
  \/ Is("Row") /\ LookUpRow(E.lk, E.lv, E.res) /\ Dump(E.dump, cfg')
  \/ Is("RowValue") /\ LookUpValue(E.lk, E.lv, E.rk, E.dflt, E.res) /\ Dump(E.dump, cfg')
  \/ Is("Bad") /\ BadOverride(E.res) /\ Dump(E.dump, cfg')
TSpec == TInit /\ [][TNext]_<<cfg, rows, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
