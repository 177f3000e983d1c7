INIT Init
NEXT Next
CONSTANT Doc <- DocDef
CONSTANT Uni <- UniDef
INVARIANT Judge
INVARIANT StackOK
CHECK_DEADLOCK FALSE
