INIT Init
NEXT Next
INVARIANT Shape
INVARIANT Conforms
INVARIANT Sound
PROPERTY Monotone
CHECK_DEADLOCK FALSE
CONSTANT Cases <- Recorded
ALIAS Short
POSTCONDITION Ends
VIEW View
