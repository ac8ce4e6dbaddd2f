CONSTANTS
  N = 4
  Nums1 = {"1", "1/2", "-1"}
  Texts1 <- MCText
INIT Init
NEXT Next
INVARIANT Answers
INVARIANT AccOk
INVARIANT Laws
INVARIANT RuleLaws
INVARIANT ProfileLaws
CHECK_DEADLOCK FALSE
