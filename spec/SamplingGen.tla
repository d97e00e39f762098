---------------------------- MODULE SamplingGen ----------------------------
EXTENDS Sampling, TLC, Json, Randomization
CONSTANTS NTake, NTrain
VARIABLES st, nv, ops, cur, here, files, ported
One(S) == RandomSubset(1, S)
Names == 1..3
Init == st = 0 /\ nv = 0 /\ ops = <<>> /\ cur = 0 /\ here = {} /\ files = {} /\ ported = {}
Start == st = 0 /\ st' = 1 /\ \E n \in One(0..2) : nv' = n /\ ops' = <<[op |-> "session", p |-> 0]>> /\ UNCHANGED <<cur, here, files, ported>>
Smp == /\ st' = st + 1 /\ \E n \in One(1..4), np \in One(0..4) :
         \E types \in One([1..n -> Names]), m1 \in One([1..np -> 1..n]), m2 \in One([1..np -> 1..n]), at \in One([1..np -> 1..4]) :
           /\ ops' = Append(ops, [op |-> "sample", types |-> types, ps |-> [k \in 1..np |-> <<m1[k], m2[k], (at[k] + 1) \div 2, ((at[k] % 2) + 1)>>]])
           /\ here' = here \cup {types[k] : k \in 1..n}
       /\ UNCHANGED <<nv, cur, files, ported>>
Wr == here # {} /\ st' = st /\ ops' = Append(ops, [op |-> "write"]) /\ files' = files \cup {<<cur, c>> : c \in here} /\ ported' = ported \cup {cur}
      /\ UNCHANGED <<nv, cur, here>>
Ses == here # {} /\ st' = st + 1 /\ \E p \in One(0..2) : cur' = p /\ here' = {} /\ ops' = Append(ops, [op |-> "session", p |-> p]) /\ UNCHANGED <<nv, files, ported>>
Taking == st \in 1..NTake /\ \E w \in One(1..7) : IF w <= 4 \/ here = {} THEN Smp ELSE IF w = 5 THEN Ses
             ELSE IF ops[Len(ops)].op = "write" THEN Smp ELSE Wr
Last == st = NTake + 1 /\ st' = NTake + 2 /\ IF here = {} \/ ops[Len(ops)].op = "write" THEN UNCHANGED <<nv, ops, cur, here, files, ported>>
        ELSE ops' = Append(ops, [op |-> "write"]) /\ files' = files \cup {<<cur, c>> : c \in here} /\ ported' = ported \cup {cur} /\ UNCHANGED <<nv, cur, here>>
\* how to name the files of a set `ok` of prefixes
RangesOf(ok) == {<<a, b>> \in (0..2) \X (0..2) : a <= b /\ (a..b) \subseteq ok}
Hows(ok, d) == {"list", "format", "both"} \cup (IF d \in ok THEN {"default", "none"} ELSE {})
RECURSIVE LastTrain(_)
LastTrain(s) == IF s[Len(s)].op = "train" THEN s[Len(s)].d ELSE LastTrain(SubSeq(s, 1, Len(s) - 1))
TrainOps == NTake + 2 .. NTake + 1 + NTrain
Col == st \in TrainOps /\ ported # {} /\ st' = st + 1 /\ UNCHANGED <<nv, cur, here, files, ported>> /\
  \E mode \in One({"port", "basis"}), d0 \in One(ported), again \in One(1..3) :
    LET fresh == again = 1 \/ st = NTake + 2
        d == IF fresh THEN d0 ELSE LastTrain(ops)
        new == IF fresh THEN <<[op |-> "train", d |-> d]>> ELSE <<>>
    IN IF mode = "port"
       THEN \E how \in One(Hows(ported, d)), n \in One(1..2) : \E l \in One([1..n -> ported]), r \in One(RangesOf(ported)) :
              ops' = ops \o new \o <<[op |-> "port", how |-> how, list |-> l, lo |-> r[1], hi |-> r[2], d |-> d]>>
       ELSE LET comps == {c \in Names : \E p \in 0..2 : <<p, c>> \in files}
                ok(c) == {p \in 0..2 : <<p, c>> \in files}
            IN \E h \in One([comps -> {1, 2, 3, 4, 5}]), l1 \in One([comps -> 0..2]), l2 \in One([comps -> 0..2]) :
              LET dok == {c \in comps : d \in ok(c)}
                  pickp(c, x) == IF x \in ok(c) THEN x ELSE CHOOSE p \in ok(c) : TRUE
                  rng(c) == CHOOSE r \in RangesOf(ok(c)) : \A s \in RangesOf(ok(c)) : r[2] - r[1] >= s[2] - s[1]
                  one(c) == [c |-> c, how |-> LET x == h[c] IN IF x = 1 THEN "list" ELSE IF x = 2 THEN "format" ELSE IF x = 3 THEN "both"
                                                  ELSE IF c \in dok THEN (IF x = 4 THEN "default" ELSE "none") ELSE "list",
                             list |-> IF l1[c] = l2[c] THEN <<pickp(c, l1[c])>> ELSE <<pickp(c, l1[c]), pickp(c, l2[c])>>,
                             lo |-> rng(c)[1], hi |-> rng(c)[2]]
              IN ops' = ops \o new \o <<[op |-> "basis", d |-> d, tags |-> [i \in 1..Cardinality(comps) |->
                     one(CHOOSE c \in comps : Cardinality({x \in comps : x < c}) = i - 1)]]>>
Done == st = NTake + 2 + NTrain /\ st' = st + 1 /\ PrintT("@@" \o ToJson([nv |-> nv, ops |-> ops])) /\ UNCHANGED <<nv, ops, cur, here, files, ported>>
Spec == Init /\ [][Start \/ Taking \/ Last \/ Col \/ Done]_<<st, nv, ops, cur, here, files, ported>>
=============================================================================
