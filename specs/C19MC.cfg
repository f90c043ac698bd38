SPECIFICATION Spec
CONSTANTS MaxPieces = 3
MaxStrings = 1
INVARIANTS Proper RoundTrip Texts Settles
CHECK_DEADLOCK FALSE
