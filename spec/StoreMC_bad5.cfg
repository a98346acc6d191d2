CONSTANTS
 Contents = {1, 2}
 RefsFirst = FALSE
 IdxFirst = FALSE
 NoDirSync = FALSE
 NoFileSync = FALSE
 RemoveFirst = TRUE
 PackFirst = TRUE
 MaxCmds = 2
 MaxFaults = 1
SPECIFICATION Spec
INVARIANTS KillSafe PowerSafe NoFalseClaims
CHECK_DEADLOCK FALSE
