CONSTANTS
  Alphabet = {32, 9, 97, 66, 49, 46, 769, 233, 803}
  N = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Collapses Automaton Forms Cleaning Tokenised Named Stems
