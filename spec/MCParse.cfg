SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS RoundTrip SizesAgree BasesAccepted Emit
VIEW View
CHECK_DEADLOCK FALSE
