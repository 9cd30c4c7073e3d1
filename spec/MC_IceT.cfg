INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 T <- TBig
 NT <- NTBig
 Lands = {1, 2, 4}
 Concs <- CSmall
 Every = 997
 Side = 5
INVARIANTS OnlyObservedIce DayAndNight NotHot Lonely Others Border Warmer Emitted
