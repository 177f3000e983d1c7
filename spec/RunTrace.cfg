INIT Init
NEXT Next
CONSTANT Input <- InputDef
CONSTANT Hits <- HitsDef
INVARIANT Judge
CHECK_DEADLOCK FALSE
