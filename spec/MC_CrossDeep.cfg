SPECIFICATION Spec
CONSTANTS
  Widths <- W232
  Sweeps = 1
INVARIANTS OnlyReorders NeverWorse DoesSome
PROPERTY Ends
CHECK_DEADLOCK FALSE
