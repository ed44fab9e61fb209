SPECIFICATION MSpec
CONSTANTS MaxLen = 5
 MaxCap = 8
 Emit = TRUE
VIEW Shape
ACTION_CONSTRAINT EmitEdge
INVARIANTS CapCoversLen Refines Owned
PROPERTIES CapMonotone PanicChangesNothing CloneIndependent
CHECK_DEADLOCK FALSE
