INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 T <- TSmall
 NT <- NTSmall
 Lands = {1, 2, 4}
 Concs <- CSmall
 Every = 101
 Side = 5
INVARIANTS OnlyObservedIce DayAndNight NotHot Lonely Others Border Warmer Emitted
