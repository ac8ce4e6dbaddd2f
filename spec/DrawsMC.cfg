CONSTANTS
  N = 6
  Elementwise = FALSE
INIT Init
NEXT Next
INVARIANT ByCombos Complete OwnDraw
