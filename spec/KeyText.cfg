SPECIFICATION Spec
CONSTANTS
  KeyBits = 8
  CharBits = 3
  ByteBits = 4
INVARIANTS Mechanism RoundTrip
CHECK_DEADLOCK FALSE
