SPECIFICATION Spec
INVARIANTS Tableaus PolynomialsExact Suggestions
CHECK_DEADLOCK FALSE
