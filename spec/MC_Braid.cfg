SPECIFICATION Spec
CONSTANTS NN = 3
 LL = 4
 EMIT = FALSE
VIEW VALL
INVARIANTS Normal Denotes Converts Inverses
CHECK_DEADLOCK FALSE
