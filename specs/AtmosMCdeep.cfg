CONSTANTS LatN = 6 Hours = 12 ElN = 6
SPECIFICATION Spec
INVARIANTS NightFloor Quiet Daily LocalTime Lower SlantRange PierceNear Positive South Yearly_ Heights Longer Zenith Below Smooth
CHECK_DEADLOCK FALSE
