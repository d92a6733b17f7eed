SPECIFICATION Spec
CONSTANTS
  K = 4
  MaxE = 4
  Labels = {""}
INVARIANTS Dag NothingLost UnchangedIfAcyclic SinkIsLegal Confluent SplitIsLegal Lowered
CHECK_DEADLOCK FALSE
