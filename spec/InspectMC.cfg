CONSTANTS
  N = 3
  Nums1 = {"0", "1", "1/2", "-1"}
  Texts1 <- MCTexts
INIT Init
NEXT Next
INVARIANT Answers
INVARIANT AccOk
INVARIANT Laws
INVARIANT RuleLaws
INVARIANT ProfileLaws
CHECK_DEADLOCK FALSE
