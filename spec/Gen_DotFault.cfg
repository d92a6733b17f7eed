INIT Init
NEXT Next
CONSTANT Kinds = {"x", ":", "=", ";", ",", "[", "]", "{", "}", "->", "--", "node", "graph", "subgraph", "strict"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
