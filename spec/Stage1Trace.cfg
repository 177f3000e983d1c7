INIT Init
NEXT Next
CONSTANT Docx <- DocxDef
CONSTANT Uni <- UniDef
INVARIANT Judge
INVARIANT Balanced
INVARIANT FramesOK
CHECK_DEADLOCK FALSE
