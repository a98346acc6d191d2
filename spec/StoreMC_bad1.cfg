CONSTANTS
 Contents = {1, 2}
 RefsFirst = TRUE
 IdxFirst = FALSE
 NoDirSync = FALSE
 NoFileSync = FALSE
 RemoveFirst = FALSE
 PackFirst = TRUE
 MaxCmds = 2
 MaxFaults = 1
SPECIFICATION Spec
INVARIANTS KillSafe PowerSafe NoFalseClaims
CHECK_DEADLOCK FALSE
