INIT Init
NEXT Next
CONSTANTS
  MaxLen = 6
  Kinds = {"a", "b", "{", "}", "[", "]", "=", ":", ",", ";", "->", "--", "node", "graph", "digraph", "subgraph", "strict"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
