SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  Vals = {1, 2}
  Groups = {1, 2, 3}
INVARIANT Right
CHECK_DEADLOCK FALSE
