SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Device = "mem"
  W = 4
  D = 8
  B = 2
  Peer = 0
INVARIANTS Handshake Memory TickKept BytesKept ReadIsByte CausesKept LineRests
