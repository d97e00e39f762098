------------------------------ MODULE StoreGen ------------------------------
EXTENDS Store, Json, Randomization
CONSTANT Len0
VARIABLE hist
One(S) == RandomSubset(1, S)
F == {"f1", "f2"}
G == {"/", "g", "h2"}
Names == {"x", "y", "longer-name:1", "0", "block_0_0", "I"}
DataKinds == {"ai", "ad", "ab", "a2i", "a2d", "a2b", "vec", "dm", "dt", "sp", "bm", "mb", "si0", "si1", "si2", "si3", "eq0", "eq1", "eq2", "eq3"}
AttrKinds == {"s", "i", "d", "b", "tag"}
H(r) == hist' = Append(hist, r)
GInit == SInit /\ hist = <<>>
Seeds == 0..999
DoCreate == \E f \in One(F) : Create(f) /\ H([op |-> "Create", f |-> f])
DoClose == \E f \in One(F) : Close(f) /\ H([op |-> "Close", f |-> f])
DoOpen == \E f \in One(F), m \in One({"rw", "ro"}) : Open(f, m) /\ H([op |-> "Open", f |-> f, m |-> m])
DoWrite == \E f \in One(F), g \in One(G), n \in One(Names), k \in One(DataKinds), sd \in One(Seeds) :
             Write(f, g, "data", n, k, 0) /\ H([op |-> "Write", f |-> f, g |-> g, c |-> "data", n |-> n, kind |-> k, seed |-> sd])
DoWriteA == \E f \in One(F), g \in One(G), n \in One(Names), k \in One(AttrKinds), sd \in One(Seeds) :
             Write(f, g, "attr", n, k, 0) /\ H([op |-> "Write", f |-> f, g |-> g, c |-> "attr", n |-> n, kind |-> k, seed |-> sd])
Readable == {k \in DOMAIN store : mode[k[1]] # "closed"}
DoRead == Readable # {} /\ UNCHANGED svars /\ \E k \in One(Readable), sd \in One(Seeds) :
             H([op |-> "Read", f |-> k[1], g |-> k[2], c |-> k[3], n |-> k[4], kind |-> store[k].kind, seed |-> sd])
DoExists == \E f \in One({x \in F : x \in Files /\ mode[x] # "closed"}), g \in One(G), n \in One(Names) :
             H([op |-> "Exists", f |-> f, g |-> g, n |-> n]) /\ UNCHANGED svars
DoSize == LET S == {k \in Readable : k[3] = "data" /\ store[k].kind \in Flat} IN
             S # {} /\ UNCHANGED svars /\ \E k \in One(S) : H([op |-> "Size", f |-> k[1], g |-> k[2], n |-> k[4]])
\* at the end every file is reopened and everything in it is read
Done == Len(hist) = Len0 /\ PrintT("@@" \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "Done"]) /\ UNCHANGED svars
GNext == \/ /\ Len(hist) < Len0
            /\ \/ DoCreate \/ DoClose \/ DoOpen \/ DoWrite \/ DoWriteA \/ DoRead
               \/ (({x \in F : x \in Files /\ mode[x] # "closed"} # {}) /\ DoExists) \/ DoSize
         \/ Done
GSpec == GInit /\ [][GNext]_<<store, mode, hist>>
=============================================================================
