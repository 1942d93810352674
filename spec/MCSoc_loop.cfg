SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Device = "serial"
  W = 4
  D = 6
  B = 3
  Peer = 0
INVARIANTS Handshake Memory TickKept BytesKept ReadIsByte CausesKept LineRests
