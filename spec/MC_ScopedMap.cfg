SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {1, 2}
  MaxDepth = 3
INVARIANTS TypeOK ScopeRestored InnerHides InsertVisible Inherited KeysAreDefined
CHECK_DEADLOCK FALSE
