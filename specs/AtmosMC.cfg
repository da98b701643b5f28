CONSTANTS LatN = 2 Hours = 3 ElN = 2
SPECIFICATION Spec
INVARIANTS NightFloor Quiet Daily LocalTime Lower SlantRange PierceNear Positive South Yearly_ Heights Longer Zenith Below Smooth
CHECK_DEADLOCK FALSE
