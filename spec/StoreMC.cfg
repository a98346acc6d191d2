CONSTANTS
 Contents = {1, 2}
 RefsFirst = FALSE
 IdxFirst = FALSE
 NoDirSync = FALSE
 NoFileSync = FALSE
 RemoveFirst = FALSE
 PackFirst = TRUE
 MaxCmds = 3
 MaxFaults = 2
SPECIFICATION Spec
INVARIANTS KillSafe PowerSafe NoFalseClaims
CHECK_DEADLOCK FALSE
