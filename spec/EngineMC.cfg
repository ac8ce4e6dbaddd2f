SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  Vals = {1, 2}
  Groups = {1, 2}
INVARIANT Right
CHECK_DEADLOCK FALSE
