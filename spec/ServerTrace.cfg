INIT Init
NEXT Next
CONSTANT Upload <- UploadDef
CONSTANT Uni <- UniDef
INVARIANT Judge
CHECK_DEADLOCK FALSE
