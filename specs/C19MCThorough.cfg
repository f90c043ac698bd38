SPECIFICATION Spec
CONSTANTS MaxPieces = 4
MaxStrings = 1
INVARIANTS Proper RoundTrip Texts Settles
CHECK_DEADLOCK FALSE
