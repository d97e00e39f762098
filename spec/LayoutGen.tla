----------------------------- MODULE LayoutGen -----------------------------
(* Random requests to the configuration generators. *)
EXTENDS Naturals, Sequences, TLC, Json, Randomization
VARIABLES st, sc
One(S) == RandomSubset(1, S)
Init == st = 0 /\ sc = <<>>
Lists == {<<"empty">>, <<"square-circle">>, <<"empty", "square-circle">>, <<"square-star", "empty">>, <<"square-star", "square-circle", "empty">>,
          <<"empty", "square-square", "square-triangle">>, <<"a", "b", "empty", "c">>}
Ops == {<<>>, <<"random">>, <<"all">>, <<"random", "random">>, <<"all", "random">>, <<"random", "all">>, <<"all", "all">>, <<"random", "all", "random">>}
BoxReq == st = 0 /\ \E nx \in One(1..4), ny \in One(1..4), px \in One(BOOLEAN), py \in One(BOOLEAN), comps \in One(Lists), ops \in One(Ops), offset \in One(0..40), seed \in One(0..99999) :
             sc' = [kind |-> "box", nx |-> nx, ny |-> ny, px |-> px, py |-> py, comps |-> comps, ops |-> ops, offset |-> offset, fill |-> <<>>, seed |-> seed] /\ st' = 1
\* places by hand, one after the other
Fill == st = 1 /\ IF sc.kind = "box" /\ Len(sc.fill) < sc.nx * sc.ny THEN \E c \in One(0..9), p \in One(0..15) : sc' = [sc EXCEPT !.fill = Append(@, <<c, p>>)] /\ st' = 1
                  ELSE st' = 2 /\ UNCHANGED sc
ChanReq == st = 0 /\ \E start \in One({"empty", "pipe-hub"}), ops \in One(Ops), ext \in One(1..12), long \in One(0..5), few \in One(1..4), offset \in One(0..40), seed \in One(0..99999) :
             sc' = [kind |-> "channel", start |-> start, ops |-> ops, ext |-> IF long = 0 THEN 30 + ext ELSE ext, few |-> few, offset |-> offset, walk |-> <<>>, seed |-> seed] /\ st' = 3
Walk == st = 3 /\ \/ \E d \in One(0..5) : sc' = [sc EXCEPT !.walk = Append(@, d)] /\ st' = 3
                  \/ sc.walk # <<>> /\ st' = 2 /\ UNCHANGED sc
                  \/ \E d \in One(0..5), e \in One(0..5), g \in One(0..5) : sc' = [sc EXCEPT !.walk = @ \o <<d, e, g>>] /\ st' = 3
Fixed == st = 0 /\ \E w \in One({"scaleup", "scaleup", "channel", "multi", "two", "three", "pairs"}), n \in One(1..6), seed \in One(0..99999) :
             sc' = (IF w = "pairs" THEN [kind |-> "pairs", seed |-> seed] ELSE [kind |-> "fixed", what |-> w, n |-> n, seed |-> seed]) /\ st' = 2
Lattice == st = 0 /\ \E d \in One(0..1), w \in One({"simple", "cantilever", "cwtrain_1x1", "cwtrain_2x2", "cwtrain_optROM", "cwtrain_optFOM"}), nx \in One(1..4), ny \in One(1..4),
             wh \in One(1..9), wv \in One(1..9), lh \in One(1..30), lv \in One(1..30), seed \in One(0..99999) :
             sc' = [kind |-> "lattice", what |-> IF d = 0 THEN "direct" ELSE w, nx |-> nx, ny |-> ny, wh |-> 100 * wh, wv |-> 100 * wv, lh |-> 100 * lh, lv |-> 250 * lv, seed |-> seed] /\ st' = 2
Meshes == st = 0 /\ \E dir \in One({"", "sub", "sub/dir", "sub.dir", "./here", "../up"}), nv \in One(4..200), nb \in One(1..40), seed \in One(0..99999) :
             sc' = [kind |-> "meshes", dir |-> dir, nv |-> nv, nb |-> nb, seed |-> seed] /\ st' = 2
Done == st = 2 /\ st' = 9 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED sc
Spec == Init /\ [][BoxReq \/ Fill \/ ChanReq \/ Walk \/ Fixed \/ Lattice \/ Meshes \/ Done]_<<st, sc>>
===========================================================================
