---------------------------- MODULE LayoutTrace ----------------------------
EXTENDS Layout, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Q == obj.q
\* sizes fixed by the training scripts
Sizes(e) == CASE e.what = "direct" -> e
              [] e.what = "cantilever" -> [e EXCEPT !.wh = 1000, !.wv = 1000, !.lh = 4000, !.lv = 4000]
              [] e.what = "cwtrain_1x1" -> [e EXCEPT !.nx = 1, !.ny = 1, !.wh = 1000, !.wv = 1000, !.lh = 4000, !.lv = 4000]
              [] e.what = "cwtrain_2x2" -> [e EXCEPT !.nx = 2, !.ny = 2, !.wh = 1000, !.wv = 1000, !.lh = 4000, !.lv = 4000]
              [] e.what = "cwtrain_optROM" -> [e EXCEPT !.nx = 1, !.ny = 1, !.wh = 200, !.wv = 200, !.lh = 6000, !.lv = 4000]
              [] e.what = "cwtrain_optFOM" -> [e EXCEPT !.nx = 3, !.ny = 3, !.wh = 200, !.wv = 200, !.lh = 6000, !.lv = 4000]
              [] OTHER -> e
Comps(e) == IF e.what \in {"cwtrain_optROM", "cwtrain_optFOM"} THEN <<"optjoint", "optbeam", "optcol">> ELSE <<"joint2D", "rod2D_H", "rod2D_V">>
\* training files come in the order of their turns; their names end in the number of the turn
Variant == IF obj.q.what \in {"cwtrain_1x1", "cwtrain_2x2", "cwtrain_optROM"} THEN 4 - left ELSE 0
FileOk == CASE obj.k = "Box" -> /\ Box(E.f, obj.q) /\ (E.want # "" => E.name = E.want)
                                /\ (E.names # <<>> => [i \in 1..NM(E.f) |-> Name(E.f, i - 1)] = E.names)
                                /\ (E.op = "fill" /\ E.want = "s1.h5" => E.f = last)
            [] obj.k = "Pairs" -> Box(E.f, [nx |-> 1, ny |-> 5, px |-> FALSE, py |-> FALSE, comps |-> E.f.comps]) /\ Len(E.f.comps) = 5 /\ AllPairs(E.f)
            [] obj.k = "Channel" -> Channel(E.f, obj.q.start, E.ext) /\ (E.want # "" => E.name = E.want) /\ (E.op = "walk" /\ E.want = "s1.h5" => E.f = last)
            [] obj.k = "Fixed" -> Sample(E.f, obj.q.what, obj.q.n)
            [] OTHER -> IF obj.q.what = "simple" THEN Ell(E.f) ELSE Frame(E.f, obj.q, Variant)
Key == IF left # -1 THEN <<>> ELSE IF obj.k = "Box" THEN Content(E.f) ELSE Path(E.f)
TInit == LInit /\ l = 1
TNext == \/ Is("Begin") /\ obj' = <<>> /\ left' = 0 /\ seen' = {} /\ names' = <<>> /\ last' = <<>>
         \/ Is("Box") /\ Ask([k |-> "Box", q |-> E])
         \/ Is("Pairs") /\ Ask([k |-> "Pairs", q |-> E])
         \/ Is("Channel") /\ Ask([k |-> "Channel", q |-> E])
         \/ Is("Fixed") /\ Ask([k |-> "Fixed", q |-> E])
         \/ Is("Lattice") /\ LET s == Sizes(E) IN Ask([k |-> "Lattice", q |-> [what |-> s.what, nx |-> s.nx, ny |-> s.ny, wh |-> s.wh, wv |-> s.wv, lh |-> s.lh, lv |-> s.lv, comps |-> Comps(E)]])
         \/ Is("Meshes") /\ Ask([k |-> "Meshes", q |-> E])
         \/ Is("Op") /\ Op(E.n)
         \/ Is("File") /\ left # 0 /\ TRUE = FileOk /\ Wrote(TRUE, E.name, Key, E.f)
         \* a port between components of which one does not exist, refused
         \/ Is("Unknown") /\ obj.k = "Box" /\ TRUE = (\E n \in {E.a, E.b} : \A k \in 1..Len(obj.q.comps) : obj.q.comps[k] # n) /\ UNCHANGED lvars
         \/ Is("All") /\ AllOf(E.count, Pow(Len(obj.q.comps), obj.q.nx * obj.q.ny))
         \/ Is("AllWalks") /\ AllOf(E.count, Cardinality(Walks(E.ext)))
         \/ Is("Turned") /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<obj, seen, names, last>>
              /\ TRUE = (E.rest /\ Len(E.before) = Len(E.after) /\ \A k \in 1..Len(E.before) : E.after[k] = ((E.before[k] + E.i - 1) % 4) + 1)
         \/ Is("End") /\ End
TSpec == TInit /\ [][TNext]_<<lvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
