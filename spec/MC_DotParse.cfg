SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Kinds = {"a", "b", "{", "}", "[", "]", "=", ":", ",", ";", "->", "--", "node", "graph", "digraph", "subgraph", "strict"}
INVARIANTS MachineIsGrammar RoundTrip NothingLost Balanced
CHECK_DEADLOCK FALSE
