INIT Init
NEXT Next
INVARIANT C28leaves
INVARIANT C28cuts
INVARIANT C28some
INVARIANT C29counts
INVARIANT C29once
INVARIANT C29all
INVARIANT Export
PROPERTY C28forward
PROPERTY C29twice
CHECK_DEADLOCK FALSE
