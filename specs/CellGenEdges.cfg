CONSTANTS N = 4
          Mode = "edges"
SPECIFICATION Spec
INVARIANTS TypeOK StepOK
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
