SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Device = "serial"
  W = 4
  D = 16
  B = 3
  Peer = 15
INVARIANTS Handshake Memory TickKept BytesKept ReadIsByte CausesKept LineRests
