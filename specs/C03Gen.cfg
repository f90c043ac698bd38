CONSTANTS
  LettersP = {97, 233, 46}
  LettersS = {97, 233, 46}
  MaxP = 4
  MaxS = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
