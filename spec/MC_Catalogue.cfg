CONSTANTS NDays = 2 MaxBuilds = 2 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS InputsOfOwnStep ReadersGetWritersPath ListReadersGetAll OutputsOnce BatchesCover
PROPERTY HistoryKept
CHECK_DEADLOCK FALSE
