SPECIFICATION Spec
CONSTANTS
  K = 3
  MaxE = 3
  Labels = {"", "x"}
INVARIANTS Dag NothingLost UnchangedIfAcyclic SinkIsLegal Confluent SplitIsLegal Lowered
CHECK_DEADLOCK FALSE
