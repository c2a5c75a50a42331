SPECIFICATION Spec
INVARIANTS PlainEnough JoinIdempotent Emit
CHECK_DEADLOCK FALSE
