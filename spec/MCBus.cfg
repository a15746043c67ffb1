SPECIFICATION Spec
CONSTANTS MaxObj = 3 MaxEls = 2 Emit = FALSE
VIEW View
INVARIANTS LookupAgrees FirstFound LabelsLegal Descends
CHECK_DEADLOCK FALSE
