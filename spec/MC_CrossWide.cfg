SPECIFICATION Spec
CONSTANTS
  Widths <- W33
  Sweeps = 2
INVARIANTS OnlyReorders NeverWorse DoesSome
PROPERTY Ends
CHECK_DEADLOCK FALSE
