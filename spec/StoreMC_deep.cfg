CONSTANTS
 Contents = {1, 2}
 RefsFirst = FALSE
 IdxFirst = FALSE
 NoDirSync = FALSE
 NoFileSync = FALSE
 RemoveFirst = FALSE
 PackFirst = TRUE
 MaxCmds = 4
 MaxFaults = 3
SPECIFICATION Spec
INVARIANTS KillSafe PowerSafe NoFalseClaims
CHECK_DEADLOCK FALSE
