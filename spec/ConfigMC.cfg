SPECIFICATION MCSpec
CONSTANTS Keys = {"a", "b"}
          Texts = {"1", "2"}
          MaxDepth = 2
INVARIANTS CTypeOK ReadsLastWrite
CHECK_DEADLOCK FALSE
