---------------------------- MODULE RomHandlerGen ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANT NOps
VARIABLES st, cfg, ops, loaded, op, disk, aps, lastap
vs == <<st, cfg, ops, loaded, op, disk, aps, lastap>>
One(S) == RandomSubset(1, S)
Init == st = 0 /\ cfg = [nv |-> 0] /\ ops = <<>> /\ loaded = FALSE /\ op = <<0>> /\ disk = <<0>> /\ aps = <<>> /\ lastap = <<>>
\* aps: enrichments of the present handler; op/disk: the enrichments under which they were made (<<0>>: none)
Start == st = 0 /\ st' = 1 /\ \E nv \in One(1..2), sep \in One(BOOLEAN), order \in One({"domain", "variable"}), nc \in One(1..3), extra \in One(0..2) :
   \E t \in One([1..extra -> 1..nc]), sh \in One(0..5), d \in One([1..nc -> [1..nv -> 5..6]]), num \in One({-1, 1, 2}), tag \in One([1..(nc * 2) -> 0..3]), full \in One(1..3),
      ls \in One({"cg", "minres", "direct"}), pr \in One({"none", "none", "gs", "block_jacobi", "block_gs", "amg"}), mt \in One({"spd", "us", "sid"}) :
     LET base == [i \in 1..nc |-> ((i + sh) % nc) + 1] IN
     cfg' = [nv |-> nv, sep |-> sep, order |-> order, types |-> (IF sh % 2 = 0 THEN base \o t ELSE t \o base), dims |-> d, num |-> num, tag |-> tag, full |-> full, ls |-> ls, pr |-> pr, mt |-> mt]
     /\ UNCHANGED <<ops, loaded, op, disk, aps, lastap>>
Do(o) == ops' = Append(ops, o)
Refs == Len(cfg.dims) * (IF cfg.sep THEN cfg.nv ELSE 1)
Step == st \in 1..NOps /\ st' = st + 1 /\ UNCHANGED cfg /\
  IF ~loaded THEN \E w \in One(1..3) : IF w = 1 THEN Do([op |-> "early"]) /\ UNCHANGED <<loaded, op, disk, aps, lastap>>
                                        ELSE Do([op |-> "load"]) /\ loaded' = TRUE /\ UNCHANGED <<op, disk, aps, lastap>>
  ELSE \E w \in One(1..21), r \in One(1..Refs) :
    CASE w <= 2 -> Do([op |-> "vec"]) /\ UNCHANGED <<loaded, op, disk, aps, lastap>>
      [] w \in 3..6 -> Do([op |-> "group"]) /\ UNCHANGED <<loaded, op, disk, aps, lastap>>
      [] w \in 7..9 \/ (w \in 10..13 /\ op # aps) -> Do([op |-> "oper"]) /\ op' = aps /\ UNCHANGED <<loaded, disk, aps, lastap>>
      [] w \in 10..12 -> Do([op |-> "solve"]) /\ UNCHANGED <<loaded, op, disk, aps, lastap>>
      [] w = 13 -> Do([op |-> "nonlin"]) /\ UNCHANGED <<loaded, op, disk, aps, lastap>>
      [] w \in 14..15 -> IF op = aps THEN Do([op |-> "save"]) /\ disk' = op /\ UNCHANGED <<loaded, op, aps, lastap>>
                         ELSE Do([op |-> "oper"]) /\ op' = aps /\ UNCHANGED <<loaded, disk, aps, lastap>>
      [] w \in 16..17 -> IF disk # <<0>> THEN Do([op |-> "loadop"]) /\ op' = (IF disk = aps THEN disk ELSE op) /\ UNCHANGED <<loaded, disk, aps, lastap>>
                         ELSE Do([op |-> "oper"]) /\ op' = aps /\ UNCHANGED <<loaded, disk, aps, lastap>>
      [] w = 18 -> IF Len(aps) < 2 THEN Do([op |-> "append", r |-> r]) /\ aps' = Append(aps, r) /\ UNCHANGED <<loaded, op, disk, lastap>>
                   ELSE Do([op |-> "vec"]) /\ UNCHANGED <<loaded, op, disk, aps, lastap>>
      [] w = 19 -> \E again \in One(BOOLEAN) : Do([op |-> "reopen", again |-> again]) /\ aps' = (IF again THEN aps ELSE <<>>) /\ op' = <<0>> /\ UNCHANGED <<loaded, disk, lastap>>
      [] w = 20 -> Do([op |-> "vis"]) /\ UNCHANGED <<loaded, op, disk, aps, lastap>>
      [] OTHER -> Do([op |-> "sup"]) /\ UNCHANGED <<loaded, op, disk, aps, lastap>>
Done == st = NOps + 1 /\ st' = st + 1 /\ PrintT("@@" \o ToJson([c |-> cfg, ops |-> ops])) /\ UNCHANGED <<cfg, ops, loaded, op, disk, aps, lastap>>
Spec == Init /\ [][Start \/ Step \/ Done]_vs
=============================================================================
