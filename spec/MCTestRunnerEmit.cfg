CONSTANTS SuiteNames <- MCSuites
MaxTests = 3
MaxRuns = 1
Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT EmitTest
