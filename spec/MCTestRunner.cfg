CONSTANTS SuiteNames <- MCSuites
MaxTests = 3
MaxRuns = 2
Emit = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS Truth
PROPERTY Reported
