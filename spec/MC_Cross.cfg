SPECIFICATION Spec
CONSTANTS
  Widths <- W222
  Sweeps = 2
INVARIANTS OnlyReorders NeverWorse DoesSome
PROPERTY Ends
CHECK_DEADLOCK FALSE
