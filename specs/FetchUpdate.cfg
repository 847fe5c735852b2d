CONSTANTS N = 4
          MaxRounds = 3
          Spurious = FALSE
SPECIFICATION Spec
INVARIANTS ResultOK FreshOK
PROPERTY Terminates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
